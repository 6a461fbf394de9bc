from selftest_names import *
SE = "src/common/serialization.h"; IM = "src/common/in_memory_stream.cpp"; CH = "src/common/chained_stream.h"
M = [
 ("V", "add-capacity", ["C01", "C02"], e(CB, "if (static_cast<size_t>(head - tail) >= capacity_ - 1) {", "if (static_cast<size_t>(head - tail) >= capacity_) {")),
 ("V", "head-relaxed", ["C01", "C15"], e(CB, "std::memory_order_release,\n                                        std::memory_order_relaxed", "std::memory_order_relaxed,\n                                        std::memory_order_relaxed")),
 ("V", "reset-load-store", ["C02"], e(AU, "    ptr = ptr_.exchange(ptr);\n    if", "    T* old = ptr_.load();\n    ptr_.store(ptr);\n    ptr = old;\n    if")),
 ("V", "peek-cap", ["C02", "C01"], e(CB, "return {data + tail_index, data + capacity_, data, data + head_index};", "return {data + tail_index, data + capacity_ - 1, data, data + head_index};")),
 ("V", "undo-missing", ["C01"], e(CB, "        data_[head_index].Swap(ptr);\n", "        ptr.reset();\n")),
 ("V", "remnant-not-sought", ["C03", "C05"], e(SS, "          span->Seek(fragment_index, position);\n", "")),
 ("V", "seek-fragment-zero", ["C03", "C05"], e(SS, "          span->Seek(fragment_index, position);\n", "          span->Seek(0, position);\n")),
 ("V", "seek-count-full", ["C03", "C04"], e(SS, "  metrics_.OnSpansSent(full_span_count);", "  metrics_.OnSpansSent(span_count);")),
 ("V", "seek-keeps-allotment", ["C03", "C05"], e(SS, "  metrics_.OnSpansSent(full_span_count);\n  allotment_ = CircularBufferRange<const AtomicUniquePtr<ChainedStream>>{};\n", "  metrics_.OnSpansSent(full_span_count);\n")),
 ("V", "num-fragments-last", ["C07", "C03"], e(SS, "    result += span->num_fragments();", "    result = span->num_fragments();")),
 ("V", "drop-set", ["C04"], e(MH, "num_dropped_spans_ += num_spans;", "num_dropped_spans_ = num_spans;")),
 ("V", "unconsume-race", ["C04", "C15"], e(MT, "  num_dropped_spans_ += num_spans;", "  num_dropped_spans_ = num_dropped_spans_ + num_spans;")),
 ("V", "counter-plain", ["C04", "C15"], e(MH, "std::atomic<int> num_dropped_spans_{0};", "int num_dropped_spans_{0};") + e(MT, "  return num_dropped_spans_.exchange(0);", "  auto result = num_dropped_spans_;\n  num_dropped_spans_ = 0;\n  return result;")),
 ("V", "array-seek-position", ["C05"], e(FA, "    position_ += position;", "    position_ = position;")),
 ("V", "chained-seek-adds", ["C05"], e(CS, "  fragment_position_ = position;\n  assert(fragment_position_ <= current_block_->size);\n}", "  fragment_position_ += position;\n}")),
 ("V", "chained-seek-index", ["C05", "C07"], e(CS, "  fragment_index_ += relative_fragment_index;\n", "  fragment_index_ = relative_fragment_index;\n")),
 ("V", "seek-index-kept", ["C05"], e(CF, "    fragment_index -= segment_num_fragments;\n", "")),
 ("V", "batch-limit", ["C06"], e(VW, "std::min(static_cast<int>(IoVecMax), num_fragments);", "std::min(static_cast<int>(IoVecMax) + 1, num_fragments);")),
 ("V", "iter-not-reset", ["C06", "C10"], e(VW, "    do_write();\n    fragment_iter = fragments;\n", "    do_write();\n")),
 ("V", "error-as-blocked", ["C06", "C12"], e(VW, "        error = true;\n", "        blocked = true;\n")),
 ("V", "short-not-blocked", ["C06"], e(VW, "    if (num_batch_bytes_written < batch_num_bytes) {\n      blocked = true;\n    }\n", "")),
 ("V", "sum-written", ["C06", "C05"], e(VW, "    num_bytes_written += num_batch_bytes_written;", "    num_bytes_written = num_batch_bytes_written;")),
 ("V", "request-count-cumulative", ["C07"], e(RR, "  num_fragments_ += span->num_fragments();\n  span->ForEachFragment", "  if (spans_ != nullptr) {\n    num_fragments_ += spans_->num_fragments();\n  }\n  span->ForEachFragment")),
 ("V", "request-header-uncounted", ["C07"], e(RR, "  num_bytes_ += metrics_fragment_.second;\n  ++num_fragments_;", "  num_bytes_ += metrics_fragment_.second;")),
 ("V", "request-stop-ignored", ["C07"], e(RR, "    if (!callback(context, metrics_fragment_.first,\n                  static_cast<size_t>(metrics_fragment_.second))) {\n      return false;\n    }", "    callback(context, metrics_fragment_.first,\n             static_cast<size_t>(metrics_fragment_.second));")),
 ("V", "next-block-bytes", ["C08", "C07"], e(CS, "    num_bytes_written_ += *size;\n    current_block_position_ = BlockSize;", "    num_bytes_written_ += BlockSize;\n    current_block_position_ = BlockSize;")),
 ("V", "close-keeps-block", ["C08"], e(CS, "  output_closed_ = true;\n  current_block_ = &head_;", "  output_closed_ = true;")),
 ("V", "big-varint-gt", ["C09", "C10"], e(DC, "if (x >= 0x80) {", "if (x > 0x80) {")),
 ("V", "varint-limit", ["C09", "C10"], e(DC, "(1ull << 56)", "(1ull << 55)")),
 ("V", "key-shift", ["C09"], e(PB, "static const int ProtoFieldShift = 3;", "static const int ProtoFieldShift = 4;")),
 ("V", "readlink-size", ["C10"], e(PU, "exe_path.get(), path_max);", "exe_path.get(), path_max + 1);")),
 ("V", "stream-end", ["C22"], e(IM, "non_const_data + size);", "non_const_data + size + 1);")),
 ("V", "array-foreach-bound", ["C07", "C10"], e(FA, "i < static_cast<int>(fragments_.size());\n       ++i", "i <= static_cast<int>(fragments_.size());\n       ++i")),
 ("V", "base64-signed", ["C10"], e(B64, "REVERSE_LOOKUP_TABLE[static_cast<uint8_t>(input[cur_read])]", "REVERSE_LOOKUP_TABLE[static_cast<int>(input[cur_read])]")),
 ("V", "base64-mask", ["C10", "C23"], e(B64, "    next_c = (cur_char & 0x03) << 4;", "    next_c = (cur_char & 0x07) << 4;")),
 ("V", "base64-shift", ["C23"], e(B64, "    ret.push_back(CHAR_TABLE[next_c | (cur_char >> 6)]);", "    ret.push_back(CHAR_TABLE[next_c | ((cur_char >> 5) & 3)]);")),
 ("V", "base64-unused-bits", ["C22"], e(B64, "      } else if (c & 0b11) {", "      } else if (c & 0b1) {")),
 ("V", "base64-partial", ["C22"], e(B64, "    if (d == 64) {\n      if (first_padding_index != cur_read + 3) {\n        // Input contains an invalid character.\n        return {};", "    if (d == 64) {\n      if (first_padding_index != cur_read + 3) {\n        // Input contains an invalid character.\n        return result;")),
 ("V", "base64-table", ["C23"], e(B64, "62, 64, 64, 64, 63,", "63, 64, 64, 64, 62,")),
 ("V", "base64-padding", ["C22"], e(B64, "      if (first_padding_index != cur_read + 2) {", "      if (first_padding_index < cur_read + 2) {")),
 ("V", "move-ctor-alias", ["C11"], e(SO, "  file_descriptor_ = other.file_descriptor_;\n  other.file_descriptor_ = InvalidSocket;\n}\n", "  file_descriptor_ = other.file_descriptor_;\n}\n")),
 ("V", "assign-leaks", ["C11"], e(SO, "  Free();\n  file_descriptor_ = other", "  file_descriptor_ = other")),
 ("V", "nonblock-check", ["C12"], e(SO, "  auto rcode = SetSocketNonblocking(file_descriptor_);\n  if (rcode == -1) {", "  auto rcode = SetSocketNonblocking(file_descriptor_);\n  if (rcode == 1) {")),
 ("V", "readlink-check", ["C12", "C10"], e(PU, "if (size == -1) {", "if (size < -1) {")),
 ("V", "socket-check", ["C12"], e(SO, "  if (file_descriptor_ == InvalidSocket) {\n    std::ostringstream", "  if (file_descriptor_ == 0) {\n    std::ostringstream")),
 ("V", "connect-then-nonblock", ["C13"], e(SO, "  socket.SetNonblocking();\n  socket.SetReuseAddress();\n  int rcode;", "  socket.SetReuseAddress();\n  int rcode;") + e(SO, "  if (rcode == 0) {\n    return socket;", "  socket.SetNonblocking();\n  if (rcode == 0) {\n    return socket;")),
 ("V", "setfd", ["C13"], e(PN, "F_SETFL, ::fcntl(socket, F_GETFL, 0) | O_NONBLOCK", "F_SETFD, ::fcntl(socket, F_GETFL, 0) | O_NONBLOCK")),
 ("V", "connect-nothrow", ["C14"], e(SO, "Socket Connect(const IpAddress& ip_address) {", "Socket Connect(const IpAddress& ip_address) noexcept {") + e("src/network/socket.h", "Socket Connect(const IpAddress& ip_address);", "Socket Connect(const IpAddress& ip_address) noexcept;")),
 ("V", "lock-relaxed", ["C15"], e(SP, "std::memory_order_acquire", "std::memory_order_relaxed")),
 ("V", "seed-once", ["C20"], e(RN, "  static thread_local TlsRandomNumberGenerator random_number_generator{};", "  static TlsRandomNumberGenerator random_number_generator{};")),
 ("V", "not-reseeded", ["C20"], e(RN, "    AtFork(nullptr, nullptr, OnFork);\n", "")),
 ("V", "xorshift-same", ["C20"], e(FG, "    t ^= s ^ (s >> 26);  // c", "    t = s ^ (s >> 26);  // c")),
 ("V", "traverse-twice", ["C31"], e(RT, "i < n_minus_1; ++i", "i <= n_minus_1; ++i")),
 ("V", "traverse-lost-stop", ["C31"], e(RT, "  return callback(indexes_.back());", "  callback(indexes_.back());\n  return true;")),
 ("V", "to-system-minus", ["C32"], e(TS, "ComputeNanosecondsSinceEpoch(steady_timestamp) + timestamp_delta", "ComputeNanosecondsSinceEpoch(steady_timestamp) - timestamp_delta")),
 ("V", "same-clock", ["C32"], e(TS, "  auto system_now = std::chrono::system_clock::now();", "  auto system_now = std::chrono::steady_clock::now();")),
 ("V", "millis", ["C32"], e(TS, "      std::chrono::duration_cast<std::chrono::nanoseconds>(\n          time_point.time_since_epoch())\n          .count());", "      std::chrono::duration_cast<std::chrono::microseconds>(\n          time_point.time_since_epoch())\n          .count() * 1000);")),
 ("V", "lookup-comparator", ["C33"], e(UT, "endpoint.first.c_str(), less_than);", "endpoint.first.c_str(), [](const char* lhs, const char* rhs) { return std::string{lhs} < rhs; });") + e(UT, "#include <algorithm>\n", "#include <algorithm>\n#include <string>\n")),
 ("V", "not-sorted", ["C33"], e(UT, "  std::sort(hosts.begin(), hosts.end(), less_than);\n", "")),
 ("V", "port-order", ["C34"], e(IP, "    reinterpret_cast<sockaddr_in6&>(data_).sin6_port = htons(port);", "    reinterpret_cast<sockaddr_in6&>(data_).sin6_port = port;")),
 ("V", "eq-no-port", ["C34"], e(IP, "    return lhs.ipv4_address().sin_port == rhs.ipv4_address().sin_port &&\n           lhs", "    return lhs")),
 ("V", "sockaddr-short", ["C34"], e(IP, "    reinterpret_cast<sockaddr_in6&>(data_) =\n        reinterpret_cast<const sockaddr_in6&>(addr);", "    reinterpret_cast<sockaddr&>(data_) = addr;")),
 ("V", "v6-family-first", ["C34"], e(IP, "  auto rcode = inet_pton(AF_INET, s, static_cast<void*>(&ipv4_addr.sin_addr));\n  if (rcode == 1) {\n    ipv4_addr.sin_family = AF_INET;", "  auto rcode = inet_pton(AF_INET, s, static_cast<void*>(&ipv4_addr.sin_addr));\n  if (rcode == 1) {\n    ipv4_addr.sin_family = AF_INET6;")),
]
