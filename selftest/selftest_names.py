def e(f, *p): return [(f, p[k], p[k + 1]) for k in range(0, len(p), 2)]
CB = "src/common/circular_buffer.h"; CR = "src/common/circular_buffer_range.h"; AU = "src/common/atomic_unique_ptr.h"
MT = "src/recorder/metrics_tracker.cpp"; MH = "src/recorder/metrics_tracker.h"; SS = "src/recorder/stream_recorder/span_stream.cpp"
CS = "src/common/chained_stream.cpp"; CF = "src/common/composable_fragment_input_stream.cpp"; FA = "src/common/fragment_array_input_stream.cpp"; FI = "src/common/fragment_input_stream.cpp"
VW = "src/network/vector_write.cpp"; SO = "src/network/socket.cpp"; IP = "src/network/ip_address.cpp"; PB = "src/common/protobuf.cpp"
RR = "src/recorder/serialization/report_request.cpp"; EM = "src/recorder/serialization/embedded_metrics_message.cpp"; BC = "src/common/buffer_chain.cpp"
RT = "src/common/random_traverser.cpp"; RN = "src/common/random.cpp"; TS = "src/common/timestamp.cpp"; UT = "src/recorder/stream_recorder/utility.cpp"
FM = "src/common/flat_map.h"; FR = "src/common/function_ref.h"; SP = "src/common/spin_lock_mutex.h"; PU = "src/common/platform/utility_unix.cpp"; PN = "src/common/platform/network_unix.cpp"; PE = "src/common/platform/error_unix.cpp"; AL = "src/network/ares_dns_resolver/ares_library_handle.cpp"; FG = "src/common/fast_random_number_generator.h"; DC = "src/common/direct_coded_output_stream.h"; IH = "src/network/ip_address.h"; RH = "src/common/random.h"; B64 = "3rd_party/base64/src/base64.cpp"
