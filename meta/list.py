NA = {}

prop("P01", "TLPs survive encoding, decoding and copying unchanged",
     "Any transaction-layer packet the library can represent packs to the byte layout of the PCIe specification and unpacks from those bytes to an equal packet, with every field, the payload and the total length preserved. "
     "Building a TLP as a copy of another TLP yields an equal, independent packet. PcieId values convert between integer, string and tuple form without loss.",
     ["inputs"], "every TLP type and format, every in-range header field value, payload length 1..1024 DW, and both empty and maximal payloads",
     "tests pack a handful of literal packets; the field packing must be right for every combination of type, address width, attribute, tag and length",
     [C + "tlp.py", C + "utils.py"],
     [("Tlp.pack_header / Tlp.unpack_header / Tlp.unpack", C + "tlp.py"), ("Tlp.__init__ copy, Tlp.__eq__, Tlp.__bytes__", C + "tlp.py"), ("PcieId", C + "utils.py")],
     observe=["Tlp.pack, Tlp.unpack, Tlp.pack_header, Tlp(tlp), =="],
     level="random cases, exact oracle: an independent encoder written from the specification", technique=HYP + "round trip and differential against an independent wire encoder")

prop("P02", "Request and completion fields describe exactly the bytes asked for",
     "For a byte range, the address, length and first/last byte enables put in a request select exactly the bytes of that range, and get_be_byte_count, get_lower_address and completion construction report the byte count, lower address and ids the specification derives from those byte enables. "
     "Tlp.check accepts every well-formed TLP and rejects every TLP that breaks one of the rules it documents.",
     ["inputs"], "every address and byte length a single request may have (1..4096 bytes, not crossing 4 KB), every byte-enable pair, and every mutation of a well-formed TLP",
     "the arithmetic has carries and special cases (zero length, single DW, length 1024, unaligned ends) that a sample of aligned transfers does not visit",
     [C + "tlp.py", C + "utils.py"],
     [("Tlp.set_addr_be, set_be_data, get_be_byte_count, get_lower_address, get_data", C + "tlp.py"), ("Tlp.create_completion_*", C + "tlp.py"), ("Tlp.check", C + "tlp.py"), ("byte_mask_update", C + "utils.py")],
     level="random cases, exact oracle: byte sets computed directly", technique=HYP + "byte-set reference model")

prop("P03", "DLLPs survive encoding and their CRC rejects every small corruption",
     "Every data-link-layer packet packs to the specification's byte layout with a correct CRC-16 and unpacks to an equal packet. A DLLP with any one, two or three bits flipped is never accepted by unpack_crc.",
     ["inputs"], "every DLLP type, sequence number, virtual channel and credit value, and every corruption of up to three bits",
     "tests build a few packets; field packing across the 12-bit and 8-bit splits and CRC coverage need all values",
     [C + "dllp.py"], [("Dllp.pack, pack_crc, unpack, unpack_crc, crc16", C + "dllp.py")],
     level="random cases, exact oracle: an independent encoder and bitwise CRC", technique=HYP + "round trip and differential against an independent encoder")

prop("P04", "A link delivers every packet exactly once, in order and unmodified",
     "Everything sent on a PCIe link port arrives at the other end exactly once, unmodified, in the order it was sent within each flow-control class, whatever the timing, the credit limits and the number of concurrent senders, including across sequence-number wrap. "
     "A receiver hands on a TLP only when its sequence number is the next expected one, and discards duplicates and out-of-sequence packets. The TLP handed on is the receiver's own: what is done to it does not change the packet the sender keeps.",
     ["schedules", "inputs"], "every mix of TLP types, sender concurrency, gaps, receiver hold times, credit limits, link speeds and widths, and received sequence-number history",
     "tests send short bursts on one unloaded link; loss or reordering appears only under back-pressure, exhausted credits or sequence wrap",
     [C + "port.py"], [("Port.send, _run_transmit, ext_recv, _run_fc_init*", C + "port.py"), ("SimPort", C + "port.py")],
     state=[("next_transmit_seq / next_recv_seq", "sequence numbers of the link", C + "port.py")],
     level="random traffic histories, exact oracle on the delivered sequence", technique=HYP + "sequence model over traffic histories")

A_DATA = [C + "rc.py", C + "endpoint.py", C + "function.py", C + "device.py", C + "switch.py", C + "bridge.py", C + "region.py", C + "pci.py", C + "tlp.py"]

prop("P07", "Root complex accesses to device BARs behave like a byte array",
     "Every read and write the root complex performs on a memory or IO BAR of a device, directly or through a window object, takes effect on exactly the addressed bytes: reads return the bytes last written, writes change nothing else. "
     "This holds for any offset and length, any payload and read-request limits, any number of concurrent operations and any topology of switches, and every operation completes.",
     ["inputs", "schedules"], "every topology, BAR kind and size, offset, length, MPS, MRRS, RCB and tag limit, and every set of concurrent operations on disjoint bytes",
     "tests use a few aligned offsets and lengths one at a time; splitting at payload, read-request, 4 KB and RCB boundaries combined with concurrency and tag exhaustion is far larger",
     A_DATA,
     [("RootComplex.mem_read, mem_write, io_read, io_write", C + "rc.py"), ("MemoryEndpoint.handle_mem_*", C + "endpoint.py"), ("Window / WindowPool / MemoryRegion", C + "region.py")],
     observe=["return values of the operations, contents of the backing memories"],
     level="random traffic histories, exact oracle: byte arrays", technique=HYP + "byte-array reference model over concurrent histories")

prop("P08", "Device accesses to host memory behave like a byte array",
     "Every memory or IO read and write a device performs on host memory owned by the root complex takes effect on exactly the addressed bytes: reads return the bytes last written, writes change nothing else, for any offset, length, limits, topology and concurrency, and every operation completes.",
     ["inputs", "schedules"], "as for P07, with devices as requesters and the root complex memory regions as targets",
     "tests use a few aligned offsets and lengths one at a time; completion splitting in the root complex and reassembly in the function see many more shapes",
     A_DATA,
     [("Function.mem_read, mem_write, io_read, io_write", C + "function.py"), ("RootComplex.handle_mem_read_tlp, handle_mem_write_tlp", C + "rc.py")],
     observe=["return values of the operations, contents of the host memory regions"],
     level="random traffic histories, exact oracle: byte arrays", technique=HYP + "byte-array reference model over concurrent histories")

prop("P09", "Device accesses to other devices' BARs behave like a byte array",
     "Every memory or IO read and write one device performs on a BAR of another device, through the root complex or directly through a shared switch, takes effect on exactly the addressed bytes and completes, for any placement of the two devices in the hierarchy.",
     ["inputs", "schedules"], "as for P07, with devices as requesters and other devices' BARs as targets",
     "tests have one peer-to-peer scenario; routing up, across and down mixes with concurrent traffic in every topology",
     A_DATA,
     [("Switch._run_routing, _run_arbitration", C + "switch.py"), ("Bridge.upstream_recv, downstream_recv, match_tlp", C + "bridge.py")],
     observe=["return values of the operations, contents of the BAR memories"],
     level="random traffic histories, exact oracle: byte arrays", technique=HYP + "byte-array reference model over concurrent histories")

prop("P10", "All traffic the simulated devices generate obeys the wire rules",
     "Every TLP the root complex and the device models put on a link is legal: no payload above the sender's Max_Payload_Size, no read above its Max_Read_Request_Size, no request across a 4 KB boundary, the right header format for the address, legal byte enables, tags within the enabled range and never reused while outstanding. "
     "Completions belong to an outstanding request, echo its TC and attributes, carry the right byte count and lower address, and split only at read completion boundaries.",
     ["inputs", "schedules"], "every TLP on every link for generated topologies, limits, TC and attributes, and concurrent traffic",
     "tests look at data, not at the packets; an illegal packet that a tolerant model accepts goes unnoticed",
     A_DATA,
     [("mem_read / mem_write splitting", C + "rc.py"), ("mem_read / mem_write splitting", C + "function.py"), ("completion splitting in handle_mem_read_tlp", C + "rc.py"), ("completion splitting in handle_mem_read_tlp", C + "endpoint.py")],
     observe=["every packet arriving at every link port"],
     level="random traffic histories, validity predicate on every packet", technique=HYP + "wire-legality monitor over generated traffic")

prop("P12", "Each non-posted operation ends with its own answer or a timeout",
     "Every read, IO and configuration operation of the root complex and of a device ends: with the data returned for its own request, or as a failure when the answer is unsuccessful, truncated or missing, and within its timeout. "
     "Tags never serve two requests at once; late, duplicate and unexpected completions are discarded, change no other operation's result, and their flow-control credits are returned.",
     ["inputs", "schedules", "fault_sequences"], "every set of concurrent operations, tag limit, order and timing of answers, and every missing, late, erroneous, truncated, duplicated or unexpected completion",
     "tests have well-behaved completers that answer in order and at once",
     [C + "rc.py", C + "function.py"],
     [("RootComplex.perform_nonposted_operation, alloc_tag, release_tag, handle_tlp", C + "rc.py"), ("Function.perform_nonposted_operation, alloc_tag, release_tag, handle_tlp", C + "function.py")],
     state=[("rx_cpl_queues / rx_cpl_sync / tag_active", "completions and state per tag", C + "rc.py")],
     observe=["results of the operations, packets and credits at a hand-written link partner"],
     level="random histories with injected completion faults, exact oracle", technique=HYP + "fault injection by a hand-written link partner")

prop("P05", "Flow-control credits are never overrun, lost or invented",
     "A port never sends a TLP beyond the credits its link partner has granted, for any initial allocation including infinite credits, and sends every waiting TLP once credits arrive. "
     "The credits a port advertises always equal its buffer size plus what it has released: every received TLP, whether consumed, forwarded, answered with an error or discarded, gives back exactly its header and data credits, once. At rest all credits are back, also after the counters have wrapped, and no traffic pattern starves or deadlocks a link.",
     ["schedules", "inputs", "histories"], "every initial allocation, every TLP mix, every order and delay of consumption and of credit grants, every topology with supported and unsupported requests",
     "a leaked or doubly released credit shows only after many packets or at the exact moment the limit is reached; tests neither exhaust credits nor look at them",
     [C + "port.py", C + "rc.py", C + "function.py", C + "device.py", C + "switch.py", C + "bridge.py"],
     [("FcChannelState.tx_tlp_fc_gate, rx_release_fc, handle_fc_dllp; Port._run_transmit", C + "port.py"), ("Tlp.release_fc", C + "tlp.py"), ("release_fc on every receive path", C + "rc.py")],
     state=[("tx_credit_limit / tx_credits_consumed / rx_credits_allocated / rx_credits_received", "credit counters per class", C + "port.py")],
     observe=["TLPs and flow-control DLLPs on every link"],
     level="random traffic and grant histories, exact credit model", technique=HYP + "credit-account model over link histories")

prop("P06", "Acknowledgements on a link say exactly what was received",
     "A port acknowledges every in-sequence TLP within its latency limit, with the number of the last TLP it accepted, and never acknowledges a TLP it has not accepted nor goes back. A duplicate is acknowledged again; an out-of-sequence TLP causes exactly one NAK until the expected TLP arrives. "
     "A port keeps every TLP it sent for replay until it is acknowledged, in order, and drops exactly the acknowledged ones; acknowledgements for TLPs not yet sent or long acknowledged change nothing. All of this holds across wrap of the 12-bit sequence number.",
     ["histories", "schedules"], "every history of in-sequence, duplicate and out-of-sequence arrivals, own transmissions, and acknowledgements with any sequence number, up to 2047 TLPs unacknowledged",
     "with two well-behaved ports no duplicate, gap, stale or premature acknowledgement ever occurs",
     [C + "port.py", C + "dllp.py"], [("Port.ext_recv, handle_dllp, start_ack_latency_timer, _run_transmit", C + "port.py")],
     state=[("next_recv_seq, nak_scheduled, ackd_seq, retry_buffer", "ACK/NAK protocol state", C + "port.py")],
     observe=["ACK and NAK DLLPs the port sends, content of retry_buffer"],
     level="random histories, exact protocol model", technique=HYP + "protocol state model driven by a hand-written link peer")

prop("P11", "Memory and IO requests act on exactly the enabled bytes",
     "A memory or IO write arriving at an endpoint or at the root complex changes exactly the bytes its byte enables select, in order of arrival. A read is answered with completions that together carry the current value of every enabled byte, in address order, with byte counts and lower addresses as the specification requires, the request's TC and attributes, at most Max_Payload_Size each and split only at read completion boundaries. A zero-length read is answered and changes nothing.",
     ["inputs", "histories"], "every address, length, byte-enable pair, TC, attribute, payload limit and completion boundary setting, in any sequence",
     "the library's own requesters only produce contiguous byte enables and a few shapes; a device under test may send any legal request",
     [C + "endpoint.py", C + "function.py", C + "rc.py", C + "tlp.py"],
     [("handle_mem_read_tlp, handle_mem_write_tlp, handle_io_read_tlp, handle_io_write_tlp", C + "endpoint.py"), ("the same of RootComplex", C + "rc.py")],
     observe=["completions on the link, contents of the memories"],
     level="random request sequences, exact oracle: byte arrays and completion rules", technique=HYP + "request/answer model behind a hand-written link partner")

prop("P13", "Requests nobody claims get exactly one UR; posted ones are dropped",
     "A non-posted request that no function, BAR, region or bridge claims is answered with exactly one completion with status Unsupported Request, carrying the request's requester ID and tag; a posted request or a completion that nobody claims is discarded silently. Neither changes any memory or register, and neither disturbs any other request.",
     ["inputs", "histories"], "every request kind to every unclaimed address, missing function or unknown requester, mixed with valid traffic, at a device and at the root complex",
     "tests send almost only supported requests", [C + "device.py", C + "function.py", C + "rc.py", C + "bridge.py", C + "endpoint.py"],
     [("Device.upstream_recv", C + "device.py"), ("Tlp.create_ur_completion_for_tlp", C + "tlp.py"), ("RootComplex.handle_*", C + "rc.py"), ("Bridge.upstream_recv", C + "bridge.py")],
     observe=["completions on the link, contents of the memories"],
     level="random request sequences, exact oracle", technique=HYP + "request/answer model behind a hand-written link partner")

prop("P14", "Switches forward every TLP unchanged to exactly the port that claims it",
     "A memory, IO or configuration request or a completion that enters a switch leaves through exactly one port, chosen by the bus ranges and address windows programmed into its bridges (including first and last address of each window, 64-bit windows and empty windows), unchanged, in order, and with flow-control credits returned. Type 1 configuration requests become type 0 exactly when they reach their target bus. "
     "What no port claims never comes out anywhere: non-posted requests get one UR from the switch, the rest is dropped.",
     ["configurations", "inputs"], "every consistent programming of windows and bus ranges, every packet at and around each boundary, entering from any side, concurrently",
     "enumeration produces one tidy layout, and traffic stays well inside the windows; off-by-one and precedence errors are invisible there",
     [C + "switch.py", C + "bridge.py"],
     [("Switch._run_routing, _run_arbitration", C + "switch.py"), ("Bridge.match_tlp_secondary, upstream_recv, downstream_recv, read/write_config_register", C + "bridge.py")],
     observe=["packets on every link of the switch"],
     level="random configurations and packets, exact routing model", technique=HYP + "independent routing model with hand-written link partners on every port")

prop("P15", "Enumeration finds every function and places all resources soundly",
     "After enumeration of any hierarchy, every present function and bridge, and nothing else, is known to the host with its own identity. Bus numbers are unique and nested. Every implemented BAR and expansion ROM has exactly its requested size and kind, a naturally aligned address, and overlaps no other; each lies inside the matching window of every bridge above it and of no other bridge. "
     "The configuration registers, match_bar and the host's view agree, Max_Payload_Size of a function is the largest that it and the port above it support (at a root port: that everything directly below it supports), and enumerating again leads to the same result.",
     ["configurations"], "every tree of switches and devices, every mix of BAR kinds and sizes from 16 bytes to TBs, ROMs, bridge BARs, multi-function devices and capabilities",
     "tests enumerate a few fixed small trees with few BARs; allocation, alignment and window arithmetic interact",
     [C + "pci.py", C + "rc.py", C + "function.py", C + "bridge.py"],
     [("PciHostBridge, PciBus, PciDevice: enumerate, read_bars, assign_bars, setup_bridge windows", C + "pci.py"), ("Function.match_bar, configure_bar", C + "function.py")],
     observe=["PciDevice objects, configuration registers, match_bar"],
     level="random hierarchies, exact structural oracle", technique=HYP + "structural invariants over generated hierarchies")

prop("P16", "Configuration space accesses follow the header access rules",
     "Every register of the type 0 and type 1 configuration headers follows its access rule under any byte-masked writes and any status events: read-only bits never change, writable bits take exactly the written bytes, write-one-to-clear bits clear only when a one is written, BARs keep their size and type bits, and unimplemented registers read zero. "
     "Configuration requests of the root complex, of any size and alignment, to any bus, device and function reach exactly that register of that function; accesses to functions that are not there fail without side effects.",
     ["inputs", "histories"], "every register, byte mask and data value, in any sequence, interleaved with status events, directly and through the fabric",
     "tests read a few identity registers and write a few whole dwords",
     [C + "function.py", C + "endpoint.py", C + "bridge.py", C + "rc.py", C + "utils.py"],
     [("read_config_register / write_config_register", C + "function.py"), ("the same of Endpoint", C + "endpoint.py"), ("the same of Bridge", C + "bridge.py"), ("RootComplex.config_read, config_write", C + "rc.py")],
     observe=["values of configuration reads, attributes of the function"],
     level="random access histories, exact register model", technique=HYP + "register model from the specification over access histories")

prop("P17", "Capability lists stay well formed under any history of changes",
     "After any sequence of registering, moving and deregistering capabilities, standard and extended, walking the list in configuration space from its pointer visits exactly the registered capabilities once each, at non-overlapping aligned places, with right IDs and a terminating zero; reads and writes at a capability's offset reach that capability and no other, and software finds each of them by ID.",
     ["histories"], "every sequence of register, deregister and fixed or automatic placement of capabilities of any length",
     "tests register a fixed set once; removing, re-adding and placing around gaps is not exercised",
     [C + "caps/common.py", C + "function.py", C + "pci.py"],
     [("PciCapList, PciExtCapList: register, deregister, build list, read_register, write_register", C + "caps/common.py"), ("Function.register_capability, deregister_capability", C + "function.py"), ("capability walk", C + "pci.py")],
     observe=["walk of the list through configuration reads"],
     level="random histories, exact list model", technique=HYP + "stateful list model")

prop("P18", "Capability registers follow the specified layout and access rules",
     "In the power-management, PCI Express (including its version 2 registers), MSI, MSI-X, AER and secondary PCI Express capabilities, every attribute appears in the bits the specification gives it, writes change exactly the writable bits selected by the byte mask, write-one-to-clear and read-only bits obey their rules, and reserved bits read zero, after any history of attribute changes and writes; the MSI layout follows its 64-bit and masking options. Fields that software can change start with their reset values.",
     ["inputs", "histories"], "every capability, register, byte mask, data value and attribute value, in any sequence",
     "the register code is a long list of shifts and masks of which tests read a handful",
     [C + "caps/pm.py", C + "caps/pcie.py", C + "caps/msi.py", C + "caps/aer.py"], [("_read_register / _write_register of every capability", C + "caps/pcie.py"), ("MsiCapability, MsixCapability", C + "caps/msi.py"), ("AerExtendedCapability, PcieExtendedCapability", C + "caps/aer.py")],
     observe=["values of configuration reads, attributes of the capability"],
     level="random access histories, exact register model from tables", technique=HYP + "table-driven register model from the specification")

prop("P19", "Interrupt messages reach exactly their own handlers",
     "Every MSI or MSI-X interrupt a device issues on an allocated vector runs each handler registered for that vector of that device exactly once and no other handler, for any number of devices, functions and vectors, any table placement, and any history of allocating and releasing. Allocation returns the number of vectors available within the requested range or fails; vectors of different functions never collide, setting up MSI-X touches nothing but its table, and a function never has both kinds enabled nor sends one that is not enabled.",
     ["histories", "configurations"], "every mix of MSI and MSI-X capable functions, vector counts, capability layouts and sequences of allocate, free, register and fire",
     "tests use one device with one vector layout", [C + "msi.py", C + "pci.py", C + "caps/msi.py", C + "rc.py"],
     [("MsiRegion.alloc_vectors, write", C + "msi.py"), ("PciDevice.alloc_irq_vectors, free_irq_vectors, msi*_capability_init, request_irq", C + "pci.py"), ("issue_msi_interrupt, issue_msix_interrupt", C + "caps/msi.py")],
     observe=["handlers run, vector events, capability state, MSI-X table"],
     level="random histories, exact delivery oracle", technique=HYP + "delivery model over interrupt histories")

X = "cocotbext/pcie/xilinx/us/"
prop("P22", "Xilinx descriptors carry exactly the TLP",
     "The CQ, CC, RQ and RC descriptors the Xilinx UltraScale models build for a TLP have every field in the place the product guide gives it, with the matching sideband byte enables and odd parity, and decode to an equal TLP; corrupting any bit of a frame is seen by the parity check. A copy of a Xilinx TLP or frame is equal and independent.",
     ["inputs"], "every TLP kind the interface supports, every field value and payload length, every descriptor-only field (BAR id and aperture, error code, request completed, sequence number, discontinue)",
     "the device models and tests decode with the same code that encodes, so a misplaced field goes unnoticed",
     [X + "tlp.py", X + "interface.py"], [("Tlp_us.pack_us_*, unpack_us_*", X + "tlp.py"), ("UsPcieFrame, dword_parity", X + "interface.py")],
     observe=["frames built and TLPs decoded"],
     level="random cases, exact oracle: an independent encoder", technique=HYP + "round trip and differential against an independent encoder")

prop("P23", "Xilinx streaming interfaces carry every packet once, in order, unchanged",
     "Every packet queued at an RQ, RC, CQ or CC source arrives at the sink exactly once, in order, with unchanged data, byte enables, parity, first and last byte enables, sequence number and discontinue, for every bus width, user width and number of straddling segments, and for any pauses, gaps and queue limits. "
     "The beats on the wires follow the product guide, and a beat that is offered does not change until it is accepted. Sinks accept every beat sequence the product guide allows.",
     ["schedules", "inputs", "configurations"], "every interface, width and segment count, packets of any length, any pattern of pauses, idle cycles and back-pressure, any queue limit",
     "source and sink share the encoding, and tests use few lengths and regular pauses; straddling and partial beats have many alignments",
     [X + "interface.py"], [("RqSource, RqSink, RcSource, RcSink, CqSource, CqSink, CcSource, CcSink", X + "interface.py"), ("UsPcieSource._run_source, UsPcieSink._run_sink", X + "interface.py")],
     observe=["frames received, beats on the wires"],
     level="random packet streams, exact oracle and independent beat decoder", technique=HYP + "streaming with an independent beat encoder and decoder")

prop("P20", "Error status bits record exactly the errors of their own function",
     "Received master abort and received target abort are set in a function's (or bridge's) status register exactly when a request of its own is answered with unsupported request or completer abort, signaled target abort exactly when it answers completer abort, and master data parity error only with parity error response enabled and a poisoned packet; on a bridge the primary and the secondary side record their own errors separately. "
     "Each bit stays until software writes one to it, nothing else changes it, and functions that took no part are never marked.",
     ["histories"], "any tree, any sequence of successful, unsupported, aborted and poisoned requests and register writes",
     "tests never read the status registers after an error", [C + "function.py", C + "bridge.py", C + "switch.py"],
     [("Function.upstream_send, upstream_recv, status register", C + "function.py"), ("Bridge.route, send, upstream_recv, downstream_recv and the secondary status register", C + "bridge.py")],
     observe=["status and secondary status registers read by configuration requests"],
     level="random histories, exact model of the status bits", technique=HYP + "status register model over error histories")

prop("P21", "Xilinx requester interfaces send each request and return each completion once",
     "On the Xilinx UltraScale and UltraScale+ device models every request the user pushes into RQ goes out on the link exactly once with exactly its fields, posted requests in order and never overtaken by later non-posted ones, unless it is discontinued or its function may not master the bus, which leave no trace. Tags are unique and in range whether the user or the core manages them; announced tags, available-tag counts and sequence numbers match what was sent. "
     "Every completion for the device appears on RC exactly once, in order, with the right address, error code and request-completed flag; tags and credits always come back, so that traffic never stops.",
     ["histories", "schedules", "configurations"], "any sequence of requests, any sequence of complete, split, failing, poisoned, mismatched and unexpected completions, any tag mode, width, straddling and stalls",
     "tests send one request at a time with client tags and never exhaust a resource", [X + "us_model.py", X + "usp_model.py"],
     [("_run_rq_logic, _run_rq_np_queue_logic, _run_rq_tag_logic, _run_rq_seq_num_logic, get_free_tag", X + "usp_model.py"), ("upstream_recv completion handling, _run_rc_logic", X + "us_model.py")],
     observe=["packets on the link, RC frames, tag and sequence number outputs"],
     level="random histories with a hand-written link partner, exact model", technique=HYP + "stateful model of the requester interfaces")

prop("P24", "Xilinx completer interfaces deliver each request and send each completion once",
     "On the Xilinx device models every memory or IO request that hits a BAR of any function appears on CQ exactly once with its fields and the function, BAR id and aperture of the BAR it hit; posted requests stay in order and are not held up by non-posted ones, which never pass earlier posted ones, are delivered only as far as the user asked for them and lose none of the user's requests for them. "
     "Every completion pushed into CC goes out once with exactly its fields, discontinued ones not at all. Requests that hit nothing and configuration requests to absent functions are answered with unsupported request, or retry status while configuration space is disabled.",
     ["histories", "schedules", "configurations"], "any BAR layout of any number of functions, any sequence of requests, credits, stalls, answers and bus numbers",
     "tests use one or few functions with the same BARs, and always grant credits", [X + "us_model.py", X + "usp_model.py"],
     [("upstream_recv, _run_cq_logic, _run_cc_logic", X + "us_model.py"), ("upstream_recv, _run_cq_logic, _run_cc_logic", X + "usp_model.py")],
     observe=["CQ frames, packets on the link, pcie_cq_np_req_count"],
     level="random histories with a hand-written link partner, exact model", technique=HYP + "stateful model of the completer interfaces")

prop("P25", "Xilinx configuration interfaces reflect the functions and issue interrupts",
     "On the Xilinx device models the configuration management port reads and writes the same registers as configuration requests on the link, with byte enables, one done pulse per access. The status, interrupt-enable and flow-control outputs follow the registers of every function, the link state and the credits exchanged on the link. "
     "Each interrupt requested on the MSI or MSI-X interface becomes exactly one memory write of that function with the address, data and attributes programmed or given, confirmed by one sent pulse. Each function offers the interrupt vectors it was configured with, and a completion lost to a full receive buffer is reported as a local error.",
     ["histories", "configurations"], "any sequence of register writes and reads on both paths, interrupts, pending bits, mask selections, credit selections and traffic, any number of functions and vector counts",
     "tests use one function and a handful of register values", [X + "us_model.py", X + "usp_model.py", C + "caps/msi.py"],
     [("_run_cfg_mgmt_logic, _run_cfg_status_logic, _run_cfg_fc_logic, _run_cfg_int_logic", X + "us_model.py"), ("_run_cfg_mgmt_logic, _run_cfg_status_logic, _run_cfg_fc_logic, _run_cfg_int_logic", X + "usp_model.py")],
     observe=["cfg_* outputs, register reads, packets on the link"],
     level="random histories, exact model of the registers and credits", technique=HYP + "register and credit model over operation histories")


S10D, PTD = "cocotbext/pcie/intel/s10/", "cocotbext/pcie/intel/ptile/"
prop("P26", "Intel streaming interfaces carry every packet once, in order, unchanged",
     "Every packet queued at a Stratix 10 or P-tile RX or TX source arrives at the sink exactly once, in order, with unchanged header, data, BAR number, function numbers, error and abort flags and parity, for every width and number of segments, and for any pauses, gaps, ready latency and queue limits. "
     "Data is only driven in cycles the ready latency allows, beats follow the user guide, and sinks accept every beat sequence the user guide allows. Resets and clear() lose what was queued and nothing else. Frames decode to the TLP they were built from, and parity covers each byte.",
     ["schedules", "inputs", "configurations"], "every width, segment count and ready latency, packets of any length, any pattern of pauses, idle cycles and resets",
     "tests use one ready latency per width and regular pauses; source and sink share the encoding", [S10D + "interface.py", PTD + "interface.py"],
     [("S10PcieSource, S10PcieSink, S10PcieFrame", S10D + "interface.py"), ("PTilePcieSource, PTilePcieSink, PTilePcieFrame", PTD + "interface.py")],
     observe=["frames received, beats on the wires, queue counters"],
     level="random packet streams, exact oracle and independent beat encoder and decoder", technique=HYP + "streaming with an independent beat encoder and decoder")

prop("P27", "Intel device models pass each packet between link and user exactly once",
     "On the Stratix 10 and P-tile device models every memory or IO request that hits a BAR and every completion for one of the functions appears on the RX interface exactly once, in order, with its fields and the function and BAR it is for; whatever the user sends goes out on the link exactly once with exactly its fields, in the order posted, non-posted and completion packets allow. "
     "Requests that hit nothing and configuration requests to absent functions are answered with unsupported request. Completions are dropped only when the completion buffer is full, and buffer space and credits come back when packets are taken, so that traffic never stops.",
     ["histories", "schedules", "configurations"], "any BAR layout of any number of functions, any sequence of requests, completions, user packets, stalls, credits and bus numbers",
     "tests use one function, a few packets and never fill the completion buffer", [S10D + "s10_model.py", PTD + "ptile_model.py"],
     [("upstream_recv, _run_rx_logic, _run_tx_logic", S10D + "s10_model.py"), ("upstream_recv, _run_rx_logic, _run_tx_logic", PTD + "ptile_model.py")],
     observe=["RX frames, packets and credits on the link"],
     level="random histories with a hand-written link partner, exact model", technique=HYP + "stateful model of the user interfaces")

prop("P28", "Intel configuration and credit outputs follow the registers and the link",
     "On the Stratix 10 and P-tile device models the configuration output shows, for every function and every index in turn, the fields of that function's registers in the places the user guide gives; the transmit credit outputs show the credits the link partner has granted and the packets sent. "
     "Every interrupt requested on the Stratix 10 interface becomes exactly one memory write of that function with the programmed address, data and traffic class, acknowledged by one pulse. Each function offers the interrupt vectors it was configured with.",
     ["histories", "configurations"], "any sequence of register writes, interrupts, packets, credit grants and bus numbers, any number of functions and vector counts",
     "tests use one function and never look at most fields", [S10D + "s10_model.py", PTD + "ptile_model.py", C + "caps/msi.py"],
     [("_run_cfg_out_logic*, _run_tx_fc_logic, _run_int_logic", S10D + "s10_model.py"), ("_run_cfg_out_logic, _run_tx_fc_logic", PTD + "ptile_model.py")],
     observe=["tl_cfg_*, tx_*_cdts, tx_cdts_limit, app_msi_ack, register reads, packets on the link"],
     level="random histories, exact model of the registers and credits", technique=HYP + "register and credit model over operation histories")

prop("P29", "Hard IP models take valid configurations and show them to the system",
     "Each of the four hard IP models accepts exactly the combinations of link generation, link width, interface width, clock (and port) its hardware has, completes a partly given configuration to a valid one whenever there is one, and then runs the user clock at that frequency, resets the user and lets go of reset again, and brings up the link at the best common speed and width. "
     "After enumeration the root complex finds exactly the configured functions, with their IDs, BARs, payload size, tag support, MSI and MSI-X capabilities as configured, and every capability and extended capability of the model.",
     ["configurations"], "every combination of given and open parameters, function counts, capabilities, BARs, link partners and reset sequences",
     "tests use one fixed configuration per model", [S10D + "s10_model.py", PTD + "ptile_model.py", X + "us_model.py", X + "usp_model.py", C + "rc.py"],
     [("S10PcieDevice.__init__, S10PcieFunction", S10D + "s10_model.py"), ("PTilePcieDevice.__init__, PTilePcieFunction", PTD + "ptile_model.py"),
      ("UltraScalePcieDevice.__init__, _run_reset", X + "us_model.py"), ("UltraScalePlusPcieDevice.__init__, _run_reset", X + "usp_model.py")],
     observe=["accepted or refused, clock period, reset output, link speed and width, result of enumeration"],
     level="random configurations, exact table and model", technique=HYP + "configuration table and enumeration model")

prop("P30", "Links carry packets in order at the speed and width they negotiate",
     "Both ends of a link agree on the lower of their maximum speeds and widths (an end that states none leaves the choice to the other). Every packet then takes the time its size needs at that rate, after any packet before it and plus the delay of the two ports; the link is never driven faster than its rate and never idle while a packet that may be sent is waiting. "
     "A received TLP is acknowledged, and credits that are given back are advertised, within the latency limit of the specification plus the packets already on their way.",
     ["schedules", "configurations"], "every combination of speeds, widths and delays of the two ends, and every timing of packets in both directions",
     "tests never look at time", [C + "port.py", C + "tlp.py", C + "dllp.py"],
     [("SimPort._connect_int, SimPort.handle_tx, SimPort._transmit", C + "port.py"), ("Port._run_transmit, _run_ack_latency_timer, _run_fc_update_timer", C + "port.py"), ("get_max_update_latency", C + "port.py")],
     observe=["negotiated speed and width", "time of arrival of every packet at both ends of the link"],
     level="random links and traffic, exact timing model", technique=HYP + "timing model of the link")

prop("P31", "Accessors of every width and address space view the same bytes",
     "Reading or writing bytes, words, dwords and qwords, singly or as lists, in either byte order, through the root complex, a function or a discovered device - in memory, IO or configuration space or relative to a capability or extended capability - accesses exactly the addressed bytes, once, with exactly those values, and nothing beside them. "
     "Attributes and traffic class given by the caller are in every request the access is split into. An access gives up after the timeout it was given, waits for the answer when it was given none, and an access relative to a capability the device does not have fails.",
     ["histories", "inputs"], "any sequence of accesses of any family, width, count, byte order, alignment and timeout in every address space",
     "tests call a few accessors with aligned little-endian values and never pass attributes or timeouts", [C + "rc.py", C + "function.py", C + "pci.py", C + "utils.py"],
     [("mem_read*, mem_write*, io_read*, io_write*, config_read*, config_write*, capability_read*, capability_write*", C + "rc.py"),
      ("mem_read*, mem_write*, io_read*, io_write*", C + "function.py"), ("config_read*, config_write*, capability_read*, capability_write*", C + "pci.py")],
     observe=["values returned, memory, IO and capability contents, requests on the link, time taken"],
     level="random access histories against byte arrays", technique=HYP + "stateful byte-array model shared by all accessors")

prop("P32", "Host device operations change exactly the registers they say",
     "After any history of enabling and disabling devices, setting and clearing bus mastering and setting the read request and payload sizes, the command and device control registers of the device and of every bridge above it are as asked: an enabled device decodes and a device below a bridge can be reached and can master the bus through every bridge above, nested enables count, and bits no operation is about keep their value. "
     "The getters return what is in the registers; invalid sizes are refused and change nothing.",
     ["histories", "configurations"], "any history of operations on any device of any tree",
     "tests enable each device once, directly after enumeration", [C + "pci.py"],
     [("PciDevice.enable_device, disable_device, set_master, clear_master, enable_bridge, set_readrq, set_mps", C + "pci.py")],
     observe=["command and device control registers of every function"],
     level="random histories against a register model", technique=HYP + "stateful model of the registers the host controls")
