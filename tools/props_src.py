T = "static analysis: abstract interpretation of the compiled program (LLVM IR of /repo's sources)"
G = "static analysis: whole-program call-graph and dataflow rules over the compiled program (LLVM IR of /repo's sources)"
prop("C01", "Concurrent submissions never lose, duplicate or overwrite a buffered span",
 "When any number of threads submit finished spans to the bounded buffer while one thread drains it, every submission either reports success and its span is drained exactly once, or reports that the buffer was full and the span stays with the submitter. No slot is ever handed to two submissions, and the buffer never holds more spans than its capacity.",
 ["schedules", "histories"], "every interleaving of any number of producers with the consumer, any capacity, any wrap-around of the positions",
 "The tests run a handful of schedules on one machine; a lost slot needs a particular interleaving of reservation, insertion and draining.",
 ["src/common/circular_buffer.h", "src/common/atomic_unique_ptr.h"],
 [("reserve slot and publish position by compare-and-swap", "src/common/circular_buffer.h CircularBuffer::Add"), ("swap-in and swap-out of slots", "src/common/atomic_unique_ptr.h")],
 ["CircularBuffer::Add", "CircularBuffer::Consume"], tech=T + ": atomics' ordering, linear index facts and ownership transfer",
 note="All paths of the lock-free operations; assumes the C++ memory model and one consumer.")
prop("C02", "Draining yields buffered spans oldest first and each exactly once",
 "The consumer sees the buffered spans in submission order, over both halves of a wrapped buffer, and consuming n of them removes exactly the n oldest. Space is only given back to producers after the consumer has emptied the slots.",
 ["schedules", "histories", "inputs"], "every buffer position, size, wrap-around and number consumed",
 "Tests use a few sizes and positions; wrap-around boundaries and the order of releasing space are schedule dependent.",
 ["src/common/circular_buffer.h", "src/common/circular_buffer_range.h"],
 [("two-part range over the ring", "src/common/circular_buffer_range.h"), ("Peek/Consume", "src/common/circular_buffer.h")], ["CircularBuffer::Peek", "CircularBuffer::Consume"], tech=T,
 note="All index arithmetic, any capacity; one consumer is assumed.")
prop("C03", "A partly sent span is finished by the same connection and never sent twice",
 "After a partial send, completely sent spans leave the buffer and are counted as sent exactly once, the span cut in the middle is kept together with its position and handed to the connection that must finish it, and no span is offered again or skipped.",
 ["inputs", "fault_sequences", "histories"], "every number of allotted spans and fragments and every byte position a send can stop at",
 "The tests stop a send at a few positions; the property ranges over every fragment boundary and offset.",
 ["src/recorder/stream_recorder/span_stream.cpp", "src/recorder/stream_recorder/connection_stream.cpp"],
 [("Seek/Clear/ConsumeRemnant", "src/recorder/stream_recorder/span_stream.cpp")], ["SpanStream::Seek", "SpanStream::ForEachFragment"], tech=T + " against stand-ins for the ring buffer")
prop("C04", "Every dropped span is counted, and its count reported or kept",
 "Each span that cannot be buffered or sent adds exactly one to the dropped count, however many threads record concurrently. A count taken for a report is delivered with it or put back when the report is lost, and flush observers are told sent and dropped spans exactly once each.",
 ["schedules", "histories", "fault_sequences"], "every interleaving of recording and reporting threads and every failure point of a report",
 "Lost updates need a particular interleaving, and losing a taken count needs a failure between taking and reporting.",
 ["src/recorder/metrics_tracker.cpp", "src/recorder/metrics_tracker.h", "src/recorder/stream_recorder/connection_stream.cpp", "src/recorder/auto_recorder.cpp", "src/recorder/manual_recorder.cpp", "src/tracer/counting_metrics_observer.h"],
 [("atomic take and give back", "src/recorder/metrics_tracker.cpp")], ["MetricsTracker", "MetricsObserver"], tech=T + " with atomic-effect rules")
prop("C05", "After a partial write sending resumes at exactly the first unsent byte",
 "When the system accepts only part of the data, a later send continues with exactly the first byte not accepted: nothing is repeated and nothing is lost, across any number of streams and fragments. This also holds when a write fails for good: the position reflects what was accepted before the failure is reported.",
 ["inputs", "fault_sequences"], "every list of streams, every fragment size and every number of bytes accepted",
 "Tests cover a few splits; the fault is a byte count at any position in any fragment.",
 ["src/common/fragment_input_stream.cpp", "src/network/vector_write.cpp", "src/common/fragment_array_input_stream.cpp", "src/common/chained_stream.cpp", "src/common/composable_fragment_input_stream.cpp"],
 [("Consume repositions", "src/common/fragment_input_stream.cpp Consume"), ("Seek/Clear", "src/common/*_stream.cpp")], ["Write", "Consume", "Seek"], tech=T)
prop("C06", "Vectored writes stay within limits and send every fragment once, in order",
 "However many fragments there are, each system call gets at most the permitted number of segments, each fragment is submitted exactly once, in order and with its own address and length. Nothing more is submitted after a write was short, would block or failed, and a real failure is always reported to the caller.",
 ["inputs", "fault_sequences"], "any number of streams and fragments and every outcome of every system call",
 "Batches only form beyond the system's segment limit, and faults between batches are never produced by the tests.",
 ["src/network/vector_write.cpp", "src/common/platform/network_unix.cpp"], [("batching", "src/network/vector_write.cpp Write")], ["Write", "WriteV"], tech=T)
prop("C07", "Counts, byte totals and iteration of fragment sequences always agree",
 "For every fragment sequence (array, block chain, stream list, report request) the reported number of fragments and bytes is what iterating it yields; iteration offers each remaining fragment once and in order and stops when asked to. Copying a request out writes exactly its bytes, one after the other, and refuses a buffer that is too small.",
 ["inputs", "histories"], "any number of fragments, blocks, streams and spans, any sizes, any answers of the callback, any prior repositioning",
 "Tests compare a few fixed sequences; agreement must hold for every sequence and position.",
 ["src/common/fragment_array_input_stream.cpp", "src/common/chained_stream.cpp", "src/common/composable_fragment_input_stream.cpp", "src/recorder/serialization/report_request.cpp", "src/common/buffer_chain.cpp"],
 [("ForEachFragment / num_fragments / num_bytes", "the listed files")], ["ForEachFragment", "num_fragments", "num_bytes", "CopyOut"], tech=T)
prop("C08", "A span's serialization buffer returns exactly the bytes written to it",
 "The growing output buffer hands out room that directly continues what was written and never overlaps it, accounts for every byte handed out or given back, and after closing offers exactly the bytes written, in order.",
 ["inputs", "histories"], "any sequence of requests for room and of giving room back, any total size",
 "Block boundaries and give-backs of every size are out of the tests' reach.",
 ["src/common/chained_stream.cpp"], [("Next/BackUp/CloseOutput", "src/common/chained_stream.cpp")], ["ChainedStream::Next", "ChainedStream::BackUp"], tech=T)
prop("C09", "Embedded messages are framed with exactly their own key, size and bytes",
 "Wherever a message is embedded in a hand-written stream, the length announced is the length of the bytes that follow, the key carries the field's number and the length-delimited wire type, and buffers sized for it fit exactly.",
 ["inputs"], "every message size and field number used", "Tests encode a few messages; a wrong size shows only at varint length boundaries.",
 ["src/common/protobuf.cpp", "src/common/protobuf.h", "src/common/direct_coded_output_stream.h", "src/common/serialization.h", "src/common/serialization.cpp", "src/common/report_request_framing.cpp", "src/common/chunked_http_framing.cpp", "src/tracer/serialization.cpp", "src/recorder/serialization/embedded_metrics_message.cpp"],
 [("key/size/bytes writing", "src/common/protobuf.cpp")], ["WriteEmbeddedMessage", "ComputeEmbeddedMessageSerializationSize"], tech=T)
prop("C10", "No fixed-size buffer is ever read or written outside its bounds",
 "Every access to a fixed-size buffer, table or array, and to input given with its length, uses an index proved to lie within it, whatever the program name, host name, identifier or header handled.",
 ["inputs"], "every input value and length", "Boundary lengths (a name exactly filling the buffer) are not tested.",
 ["src/common/platform/utility_unix.cpp", "src/common/hex_conversion.cpp", "src/common/hex_conversion.h", "src/network/ip_address.cpp", "src/recorder/stream_recorder/host_header.cpp", "src/common/report_request_framing.cpp"],
 [("length checks before accesses", "the listed files")], ["GetProgramName", "HexToUint64", "IpAddress"], tech=T)
prop("C11", "Every operating-system and library handle is released exactly once",
 "Sockets, address lists, events, event loops, timers and the resolver's channel acquired by the tracer are released exactly once on every path, including failures during construction and moves, and never used after release.",
 ["fault_sequences", "histories"], "every failure point of every construction, move and teardown", "Leaks and double closes on failure paths are not exercised by the tests.",
 ["src/network/socket.cpp", "src/network/event.cpp", "src/network/event_base.cpp", "src/network/timer_event.cpp", "src/common/platform/network_environment_unix.cpp", "src/network/ares_dns_resolver/ares_dns_resolver.cpp"],
 [("owning wrappers", "src/network/*.cpp")], ["Socket", "Event", "EventBase"], tech=T + " (ownership typestate)")
prop("C12", "A failed system or library call is never taken for success",
 "Whenever the operating system or a library reports a failure, the tracer notices it and fails the operation, reports it, or handles it; results of failed calls are never used as if valid. Writing to a connection its peer has closed is such a failure too: it never ends the process by a signal.",
 ["fault_sequences"], "every call site whose result can signal failure", "The tests cannot make the system fail at every call site.",
 ["src/network/socket.cpp", "src/network/event.cpp", "src/network/event_base.cpp", "src/common/platform", "src/network/ares_dns_resolver", "src/common/utility.cpp"],
 [("return codes examined", "the listed files")], ["throw sites", "logging"], tech=G)
prop("C13", "The event loop's sockets never block the process",
 "Every socket used by the sending loop is in non-blocking mode with address reuse configured before a connection is attempted, and a connection attempt in progress is not treated as a failure.",
 ["programs", "fault_sequences"], "every path that creates or connects a socket", "A blocking connect only shows with an unresponsive peer.",
 ["src/network/socket.cpp", "src/recorder/stream_recorder/utility.cpp", "src/recorder/stream_recorder/satellite_connection.cpp", "src/common/platform/network_unix.cpp"],
 [("Connect", "src/network/socket.cpp Connect")], ["Connect"], tech=T)
prop("C14", "No exception escapes a thread, a C callback or a no-throw API",
 "Code run by background threads, C library callbacks, destructors and functions promising not to throw handles every exception that may arise below it, so a failure in the tracer never terminates the traced process.",
 ["fault_sequences", "programs"], "every function that must not throw and every exception that may reach it", "Tests cannot inject an exception at every call.",
 ["src/recorder/stream_recorder", "src/recorder/auto_recorder.cpp", "src/tracer/span.cpp", "src/tracer/legacy/legacy_span.cpp", "src/network/event_base.cpp"],
 [("try/catch in boundaries", "listed files")], ["noexcept functions", "callbacks"], tech=G)
prop("C15", "Shared mutable state is only touched under its lock or atomically",
 "State shared by several threads (span data, baggage, recorder buffers and flags) is only read or written while its lock is held, or is atomic, and the spin lock itself excludes all but one holder and publishes what was written under it.",
 ["schedules"], "every access to state guarded by a lock", "Races need particular interleavings and are invisible to single-threaded tests.",
 ["src/common/spin_lock_mutex.h", "src/tracer/span.cpp", "src/tracer/legacy/legacy_span.cpp", "src/tracer/lightstep_span_context.cpp", "src/recorder/auto_recorder.cpp", "src/recorder/stream_recorder/stream_recorder.cpp"],
 [("locks", "listed files")], ["guarded fields"], tech=G + ", lock-set analysis")
prop("C16", "User callbacks and blocking calls never run while a lock is held",
 "No transport, metrics observer, logger sink or other user code and no blocking operation runs while one of the tracer's spin locks is held, and locks are always taken in one order.",
 ["schedules", "programs"], "every call made while a lock is held", "A deadlock needs user code that calls back.",
 ["src/common/spin_lock_mutex.h", "src/tracer/span.cpp", "src/recorder/auto_recorder.cpp", "src/recorder/manual_recorder.cpp"],
 [("lock scopes", "listed files")], ["virtual calls under locks"], tech=G + ", lock-order analysis")
prop("C17", "Waiting threads are always woken and never miss a shutdown or flush",
 "Every wait re-examines its condition, every change that can end a wait is made so that a waiter cannot miss it, and is followed by a notification; flush and shutdown therefore return.",
 ["schedules"], "every interleaving of waiting and notifying", "Lost wake-ups need a particular interleaving.",
 ["src/recorder/stream_recorder/stream_recorder.cpp", "src/recorder/auto_recorder.cpp", "src/common/condition_variable_wrapper.h"],
 [("wait with predicate; notify", "listed files")], ["FlushWithTimeout", "destructor"], tech=G)
prop("C19", "Forked children neither share connections nor inherit half-finished state",
 "Before a fork every recorder gives up its event loop and connections; afterwards the parent and the child each start a new loop of their own, and nothing that was buffered, dropped, counted or pending before the fork is left in the child. The fork handlers are registered once, each in its place, and tell every existing recorder exactly once.",
 ["schedules", "histories"], "every fork, in every state of the recorder", "Tests fork in one or two states.",
 ["src/recorder/fork_aware_recorder.cpp", "src/recorder/stream_recorder/stream_recorder.cpp", "src/common/random.cpp", "src/common/platform/fork_unix.cpp"],
 [("fork handlers", "src/recorder/fork_aware_recorder.cpp")], ["PrepareForFork", "OnForkedChild"], tech=T + " (abstract interpretation over list shapes)", note="lists of at most four recorders; no other thread uses a recorder while one forks, as documented")
prop("C20", "Random identifiers are per-thread, seeded, and differ after a fork",
 "Identifiers come from a generator owned by the calling thread that was seeded from the system's entropy before its first use, and a forked child reseeds before it produces identifiers again, so threads and processes do not produce the same sequence.",
 ["schedules", "histories"], "every thread and every fork", "One thread and one fork are tested.",
 ["src/common/random.cpp", "src/common/random.h", "src/common/fast_random_number_generator.h"],
 [("thread-local generator", "src/common/random.cpp")], ["GenerateId"], tech=T)
prop("C21", "A span is recorded exactly once, and never changed afterwards",
 "Finishing a span, explicitly or by destroying it, hands it to the recorder exactly once, however many threads finish it; later changes have no effect on what was recorded, and a span that is not sampled is not recorded.",
 ["schedules", "histories"], "every order of operations on a span by any threads", "Concurrent finish and set operations are not tested.",
 ["src/tracer/span.cpp", "src/tracer/legacy/legacy_span.cpp"], [("finished flag and serialization under the lock", "src/tracer/span.cpp FinishWithOptions")], ["Span::Finish", "Recorder::RecordSpan"], tech=T + " (typestate)")
prop("C22", "Untrusted propagation data is parsed safely and never partly accepted",
 "Base64 text, hexadecimal numbers, traceparent headers and cloud trace headers received from outside are decoded completely or rejected: text with a character, length or padding that does not belong there is never partly accepted, well-formed text is never rejected or truncated, a carrier is accepted only if all the headers a context needs are in it and every one of them is well formed, and no byte outside the text given is read, whether directly or through the stream made of it.",
 ["inputs"], "every sequence of characters", "Tests use a few malformed headers.",
 ["3rd_party/base64/src/base64.cpp", "src/common/hex_conversion.cpp", "src/common/in_memory_stream.cpp", "src/tracer/propagation/trace_context.cpp", "src/tracer/propagation/cloud_trace_propagator.cpp", "src/tracer/propagation/trace_context_propagator.cpp", "src/tracer/propagation/multiheader_propagator.cpp"],
 [("decode", "3rd_party/base64/src/base64.cpp"), ("HexToUint64, ParseTraceContext, ParseCloudTrace", "listed files")], ["Base64::decode", "HexToUint64", "ParseTraceContext"], tech=T + " (bit-level dataflow over patterns of character classes)", note="text longer than the lengths analysed is covered by the uniformity of the loops only; the field after the trace identifier of a cloud trace header is only checked to be read inside the header")
prop("C23", "What one process injects another extracts unchanged",
 "The encodings used to inject a span context are inverted exactly by those used to extract it: base64 of any bytes of any length, hexadecimal numbers of every width, every field of a traceparent header and the trace identifier of a cloud trace header come back bit for bit; every identifier is set under the header it is extracted from, and a header that could not be set is reported.",
 ["inputs"], "every content and every length", "Tests round-trip a few values.",
 ["3rd_party/base64/src/base64.cpp", "src/common/hex_conversion.h", "src/common/hex_conversion.cpp", "src/tracer/propagation/trace_context.cpp", "src/tracer/propagation/cloud_trace_propagator.cpp", "src/tracer/propagation/trace_context_propagator.cpp", "src/tracer/propagation/multiheader_propagator.cpp"],
 [("encode/decode", "3rd_party/base64/src/base64.cpp"), ("hexadecimal digits", "src/common/hex_conversion.h"), ("Serialize/ParseTraceContext", "src/tracer/propagation/trace_context.cpp")], ["Base64::encode", "Base64::decode", "SerializeTraceContext"], tech=T + " (bit-level dataflow through both ends)", note="base64: every length up to 100 and selected ones up to 65537; the sampling flag of the B3 headers and the baggage are not covered")
prop("C24", "A failed satellite connection is always retried and its resources reclaimed",
 "Whatever goes wrong on a connection to a satellite, the connection is closed, its unfinished data reclaimed and counted, and exactly one reconnect is scheduled, unless the tracer is shutting down.",
 ["fault_sequences", "histories"], "every failure in every state of a connection", "Tests produce a few failures with a local server.",
 ["src/recorder/stream_recorder/satellite_connection.cpp"], [("HandleFailure/Reconnect", "src/recorder/stream_recorder/satellite_connection.cpp")], ["SatelliteConnection"], tech=G)
prop("C25", "Host names are re-resolved for ever, and each query reports exactly once",
 "Each started resolution calls its callback exactly once, and after success or failure another resolution is scheduled, so endpoints are refreshed for as long as the tracer runs; a failed refresh keeps the addresses known.",
 ["fault_sequences", "histories"], "every outcome of every resolution", "Tests see few outcomes.",
 ["src/network/ares_dns_resolver/ares_dns_resolver.cpp", "src/recorder/stream_recorder/satellite_dns_resolution_manager.cpp", "src/recorder/stream_recorder/satellite_endpoint_manager.cpp"],
 [("OnDnsResolution/ScheduleRefresh", "src/recorder/stream_recorder/satellite_dns_resolution_manager.cpp")], ["OnDnsResolution"], tech=G)
prop("C26", "Every configuration option given is applied, and to its own setting",
 "Each option of the textual configuration that is present is copied to the tracer option of the same meaning, absent options leave the default, and an invalid configuration is rejected with an error.",
 ["configurations", "inputs"], "every combination of options", "Tests set a few options.",
 ["src/tracer/json_options.cpp", "src/tracer/tracer.cpp"], [("MakeTracerOptions", "src/tracer/json_options.cpp")], ["MakeTracerOptions"], tech=G)
prop("C27", "Callbacks referring to temporary state are never kept beyond the call",
 "Non-owning callback references are only passed down the stack and never stored, returned or handed to another thread, and calling one runs exactly the callable it was made from with the given arguments.",
 ["programs"], "every use of a callback reference", "A dangling reference may appear to work in a test.",
 ["src/common/function_ref.h"], [("FunctionRef", "src/common/function_ref.h")], ["FunctionRef"], tech=G + ", escape analysis")
prop("C28", "The access token is only ever sent to satellites, never logged",
 "The access token given in the options is copied only into report headers; it never reaches log output, error messages or tags.",
 ["programs", "inputs"], "every flow of the token through the program", "Tests do not look for the token in every output.",
 ["src/recorder", "src/tracer/tracer.cpp"], [("access_token", "include/lightstep/tracer.h")], ["logger", "report header"], tech=G + ", taint analysis")
prop("C31", "A random traversal visits every index exactly once",
 "Visiting a collection in random order touches each position exactly once per traversal, whatever the random numbers, and stops early only when asked to.",
 ["inputs"], "every size and every sequence of random numbers", "Tests run a few random orders.",
 ["src/common/random_traverser.cpp", "src/common/random_traverser.h"], [("shuffle then visit", "src/common/random_traverser.cpp")], ["RandomTraverser::ForEachIndex"], tech=T)
prop("C32", "Clock conversions keep the instant and never mix clocks",
 "Converting between steady and wall-clock time uses one pair of simultaneous readings with the right sign, and a span's duration comes from the steady clock, so it is unaffected by wall-clock changes.",
 ["inputs"], "every pair of clock readings", "Clock jumps do not occur in tests.",
 ["src/common/timestamp.cpp", "src/common/timestamp.h", "src/tracer/utility.h", "src/tracer/span.cpp"], [("timestamp delta", "src/common/timestamp.cpp")], ["ComputeStartTimestamps"], tech=T)
prop("C33", "Sorted lookups find every entry that is present",
 "The small sorted map keeps its keys sorted and unique under any insertions, so a lookup finds an entry exactly when it was inserted, and the last value given for a key wins. The list of satellite hosts is sorted and free of duplicates without regard to case, and every configured endpoint, in order, refers to its own host and keeps its own port.",
 ["inputs", "histories"], "any sequence of insertions, any list of endpoints", "Tests insert a few keys.",
 ["src/common/flat_map.h", "src/tracer/baggage_flat_map.h", "src/recorder/stream_recorder/utility.cpp", "src/common/platform/string_unix.cpp"], [("insert_or_assign/lookup", "src/common/flat_map.h"), ("SeparateEndpoints", "src/recorder/stream_recorder/utility.cpp")], ["FlatMap", "SeparateEndpoints"], tech=T, note="std::lower_bound, sort and unique are taken at their contract; any keys, any endpoints.")
prop("C34", "Network addresses keep family, size and content together",
 "An address is always accompanied by the size of its family's structure, its port is kept in network order, and IPv4 and IPv6 contents are only read as what they are.",
 ["inputs"], "every address and port", "Tests use a few addresses.",
 ["src/network/ip_address.cpp", "src/network/ip_address.h"], [("IpAddress", "src/network/ip_address.cpp")], ["IpAddress"], tech=T)
prop("C40", "Random identifiers are statistically uniform",
 "Identifiers generated by the tracer are uniformly distributed over all 64-bit values.",
 ["inputs"], "the generator's whole output sequence", "Only a statistical test or a proof about the generator's mathematics could tell.",
 ["src/common/random.cpp", "src/common/fast_random_number_generator.h"], [("generator", "src/common/fast_random_number_generator.h")], ["GenerateId"],
 na="a property of the generator's output distribution over its whole period; no sound static argument in reach bounds it")
prop("C41", "Reports are sent within the configured reporting period",
 "A finished span is reported within one reporting period plus the time a send takes, whatever the load.",
 ["schedules"], "every load and scheduling", "Depends on real time.",
 ["src/recorder/auto_recorder.cpp", "src/recorder/stream_recorder"], [("reporting period timers", "src/recorder/stream_recorder/stream_recorder.cpp")], ["Transporter::Send"],
 na="quantifies over real time and the scheduler; static analysis of the source cannot bound it (that waits end and loops run is decided elsewhere)")
prop("C42", "Every span accepted is eventually received by a satellite exactly once",
 "A span accepted by the recorder reaches a satellite exactly once if one stays reachable.",
 ["fault_sequences", "histories"], "every history of network failures", "Depends on the network's and the satellite's behaviour.",
 ["src/recorder/stream_recorder"], [("streaming", "src/recorder/stream_recorder")], ["satellite"],
 na="a liveness property of the tracer together with network and satellite; the local halves (nothing lost or repeated between buffer and socket) are decided by C01-C06")
