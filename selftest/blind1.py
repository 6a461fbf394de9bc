from selftest_names import *
M = [
 # ---- bugs
 ("V", "peek-head-twice", ["C01", "C02"], e(CB, "    int64_t head_index = head_ % capacity_;\n    if (head_index == tail_index) {\n      return {};\n    }", "    if (head_ == tail_) {\n      return {};\n    }\n    int64_t head_index = head_ % capacity_;", "    if (tail_index < head_index) {", "    if (tail_index < static_cast<int64_t>(head_ % capacity_)) {")),
 ("V", "swapifnull-split", ["C01", "C15"], e(AU, "    T* expected = nullptr;\n    auto was_successful = ptr_.compare_exchange_weak(\n        expected, ptr, std::memory_order_release, std::memory_order_relaxed);\n    if (was_successful) {\n", "    if (ptr_.load(std::memory_order_acquire) == nullptr) {\n      ptr_.store(ptr, std::memory_order_release);\n")),
 ("V", "reset-split", ["C01", "C02", "C15"], e(AU, "    ptr = ptr_.exchange(ptr);\n    if (ptr != nullptr) {\n      delete ptr;\n    }", "    T* old = ptr_.load();\n    ptr_.store(ptr);\n    delete old;")),
 ("V", "swap-split", ["C01", "C02", "C03"], e(AU, "    ptr.reset(ptr_.exchange(ptr.release()));", "    T* old = ptr_.load();\n    ptr_.store(ptr.release());\n    ptr.reset(old);")),
 ("V", "add-reloads-head", ["C01"], e(CB, "        auto new_head = head + 1;\n        auto expected_head = head;", "        auto expected_head = head_.load();\n        auto new_head = expected_head + 1;")),
 ("V", "add-gives-up", ["C01"], e(CB, "        data_[head_index].Swap(ptr);\n      }", "        data_[head_index].Swap(ptr);\n        return false;\n      }")),
 ("V", "consume-releases-later-size", ["C01", "C02"], e(CB, "    tail_ += n;\n    callback(range);", "    callback(range);\n    tail_ = head_ - (size() - n);")),
 ("V", "take-boundary", ["C02"], e(CR, "static_cast<size_t>(size1) >= n", "static_cast<size_t>(size1) > n + 1")),
 ("V", "unconsume-overwrites", ["C04"], e(MT, "  num_dropped_spans_ += num_spans;", "  if (num_dropped_spans_ < num_spans) {\n    num_dropped_spans_ = num_spans;\n  } else {\n    num_dropped_spans_ += num_spans;\n  }")),
 ("V", "consume-two-steps", ["C04"], e(MT, "  return num_dropped_spans_.exchange(0);", "  int result = num_dropped_spans_;\n  if (result > 0) {\n    num_dropped_spans_ = 0;\n  }\n  return result;")),
 ("V", "sent-zero-skipped-neg", ["C04", "C03"], e(MT, "  metrics_observer_.OnSpansSent(num_spans);", "  if (num_spans > 1) {\n    metrics_observer_.OnSpansSent(num_spans);\n  }")),
 ("V", "seek-remnant-late-reset", ["C03"], e(SS, "  remnant_.reset();\n  int full_span_count = 0;", "  int full_span_count = 0;", "  metrics_.OnSpansSent(full_span_count);\n  allotment_ =", "  metrics_.OnSpansSent(full_span_count);\n  if (full_span_count > 0) {\n    remnant_.reset();\n  }\n  allotment_ =")),
 ("V", "seek-counts-cut", ["C03", "C04"], e(SS, "    full_span_count = span_count;\n", "", "    ++span_count;\n    return false;\n  });", "    ++span_count;\n    full_span_count = span_count;\n    return false;\n  });")),
 ("V", "fragments-only-first-list", ["C07"], e(CF, "  while (stream != nullptr) {\n    if (!stream->SegmentForEachFragment(callback)) {\n      return false;\n    }\n    stream = stream->next_.get();\n  }\n  return true;", "  while (stream != nullptr) {\n    if (stream->segment_num_fragments() == 0) {\n      return true;\n    }\n    if (!stream->SegmentForEachFragment(callback)) {\n      return false;\n    }\n    stream = stream->next_.get();\n  }\n  return true;")),
 ("V", "append-last-stale", ["C07", "C08"], e(CF, "  last_ = stream.get();\n  prev_last->Append(std::move(stream));", "  last_ = stream->last_ != nullptr ? stream->last_ : stream.get();\n  prev_last->next_ = std::move(stream);\n  last_ = prev_last->next_.get();")),
 ("V", "seek-skips-clear", ["C05", "C03", "C07"], e(CF, "    fragment_index -= segment_num_fragments;\n    stream->SegmentClear();\n", "    fragment_index -= segment_num_fragments;\n    if (segment_num_fragments > 1) {\n      stream->SegmentClear();\n    }\n")),
 ("V", "batch-bytes-carry", ["C06", "C05"], e(VW, "    batch_num_bytes = 0;\n", "    batch_num_bytes -= num_bytes_written;\n")),
 ("V", "intr-as-blocking", ["C12", "C06"], e(PE, "return error_code == EAGAIN || error_code == EWOULDBLOCK;", "return error_code == EAGAIN || error_code == EWOULDBLOCK ||\n         error_code == EPIPE;")),
 ("V", "nonblocking-clobbers", ["C13"], e(PN, "::fcntl(socket, F_GETFL, 0) | O_NONBLOCK", "::fcntl(socket, F_GETFL, 0) | FNDELAY & ~O_NONBLOCK")),
 ("V", "getfl-unchecked-mask", ["C13"], e(PN, "::fcntl(socket, F_SETFL, ::fcntl(socket, F_GETFL, 0) | O_NONBLOCK)", "::fcntl(socket, F_SETFD, ::fcntl(socket, F_GETFL, 0) | O_NONBLOCK)")),
 ("V", "connect-blocks-v6", ["C13"], e(SO, "  socket.SetNonblocking();\n  socket.SetReuseAddress();\n", "  if (ip_address.family() == AF_INET) {\n    socket.SetNonblocking();\n  }\n  socket.SetReuseAddress();\n")),
 ("V", "connect-refused-ok", ["C12"], e(SO, "!IsInProgressErrorCode(error_code) && !IsBlockingErrorCode(error_code)", "!IsInProgressErrorCode(error_code) && IsBlockingErrorCode(error_code)")),
 ("V", "connect-size-v6", ["C34", "C10"], e(SO, "sizeof(ip_address.ipv6_address())", "sizeof(ip_address.ipv4_address())")),
 ("V", "move-assign-alias", ["C11"], e(SO, "  Free();\n  file_descriptor_ = other.file_descriptor_;\n  other.file_descriptor_ = InvalidSocket;\n  return *this;", "  if (other.file_descriptor_ != InvalidSocket) {\n    Free();\n  }\n  file_descriptor_ = other.file_descriptor_;\n  other.file_descriptor_ = InvalidSocket;\n  return *this;")),
 ("V", "throw-after-close", ["C11"], e(SO, "  auto rcode = SetSocketReuseAddress(file_descriptor_);\n  if (rcode == -1) {\n", "  auto rcode = SetSocketReuseAddress(file_descriptor_);\n  if (rcode == -1) {\n    CloseSocket(file_descriptor_);\n")),
 ("V", "ares-cleanup-on-fail", ["C11", "C12"], e(AL, "  if (status != 0) {\n", "  if (status < 0) {\n")),
 ("V", "ares-handler-narrow", ["C14"], e(AL, "catch (const std::exception& e)", "catch (const std::logic_error& e)")),
 ("V", "program-name-terminated", ["C10"], e(PU, "  std::string path(exe_path.get(), size);", "  exe_path[size] = '\\0';\n  std::string path(exe_path.get());")),
 ("V", "ip-buffer", ["C10"], e(IP, "std::array<char, INET6_ADDRSTRLEN> buffer", "std::array<char, 40> buffer", "s = inet_ntop(AF_INET6, &ip_address.ipv6_address().sin6_addr, buffer.data(),\n                  sizeof(buffer));", "s = inet_ntop(AF_INET6, &ip_address.ipv6_address().sin6_addr, buffer.data(),\n                  INET6_ADDRSTRLEN);")),
 ("V", "port-lost", ["C34"], e(IP, "reinterpret_cast<sockaddr_in6&>(data_).sin6_port = htons(port);", "reinterpret_cast<sockaddr_in&>(data_).sin_port = port;")),
 ("V", "v6-as-v4", ["C34"], e(IP, "    reinterpret_cast<sockaddr_in6&>(data_) =\n        reinterpret_cast<const sockaddr_in6&>(addr);", "    reinterpret_cast<sockaddr_in&>(data_) =\n        reinterpret_cast<const sockaddr_in&>(addr);")),
 ("V", "eq-truncated", ["C34"], e(IP, "sizeof(lhs.ipv6_address())) == 0", "sizeof(lhs.ipv4_address())) == 0")),
 ("V", "spin-relaxed", ["C15"], e(SP, "std::memory_order_acquire", "std::memory_order_relaxed")),
 ("V", "seed-constant", ["C20"], e(RN, "std::seed_seq seed_seq{random_device(), random_device(), random_device(),\n                           random_device()};", "std::seed_seq seed_seq{1u, 2u, 3u, 4u};")),
 ("V", "fork-parent-slot", ["C20"], e(RN, "AtFork(nullptr, nullptr, OnFork);", "AtFork(nullptr, OnFork, nullptr);")),
 ("V", "engine-not-tls", ["C20"], e(RN, "  static thread_local FastRandomNumberGenerator engine_;", "  static FastRandomNumberGenerator engine_;", "thread_local FastRandomNumberGenerator TlsRandomNumberGenerator::engine_{};", "FastRandomNumberGenerator TlsRandomNumberGenerator::engine_{};")),
 ("V", "seed-half-state", ["C20"], e(FG, "reinterpret_cast<uint32_t*>(state_.data() + state_.size())", "reinterpret_cast<uint32_t*>(state_.data() + 1)")),
 ("V", "delta-sign", ["C32"], e(TS, "  return ComputeNanosecondsSinceEpoch(system_now) -\n         ComputeNanosecondsSinceEpoch(steady_now);", "  return ComputeNanosecondsSinceEpoch(steady_now) -\n         ComputeNanosecondsSinceEpoch(system_now);", "ComputeNanosecondsSinceEpoch(steady_timestamp) + timestamp_delta", "ComputeNanosecondsSinceEpoch(steady_timestamp) - timestamp_delta")),
 ("V", "micros", ["C32"], e(TS, "std::chrono::duration_cast<std::chrono::nanoseconds>(\n          time_point.time_since_epoch())\n          .count()", "std::chrono::duration_cast<std::chrono::microseconds>(\n          time_point.time_since_epoch())\n          .count() * 1000")),
 ("V", "upper-bound", ["C33"], e(UT, "std::lower_bound(hosts.begin(), hosts.end(),", "std::upper_bound(hosts.begin(), hosts.end(),")),
 ("V", "unique-before-sort", ["C33"], e(UT, "  std::sort(hosts.begin(), hosts.end(), less_than);\n  hosts.erase(std::unique(hosts.begin(), hosts.end(), equal_to), hosts.end());", "  hosts.erase(std::unique(hosts.begin(), hosts.end(), equal_to), hosts.end());\n  std::sort(hosts.begin(), hosts.end(), less_than);")),
 ("V", "strcmp-unique", ["C33"], e(UT, "    return StrCaseCmp(lhs, rhs) == 0;", "    return std::strcmp(lhs, rhs) == 0;", "#include <algorithm>", "#include <algorithm>\n#include <cstring>")),
 ("V", "insert-end", ["C33"], e(FM, "    return data_.emplace(iter, std::move(key), std::move(value));", "    return data_.emplace(data_.empty() ? iter : data_.end(), std::move(key), std::move(value));")),
 ("V", "traverser-range", ["C31"], e(RT, "distribution{i, n_minus_1};", "distribution{0, n_minus_1};")),
 ("V", "traverser-last-skipped", ["C31"], e(RT, "  return callback(indexes_.back());", "  return n_minus_1 > 0 ? callback(indexes_.back()) : true;")),
 ("V", "embedded-key", ["C09"], e(PB, "static const int ProtoFieldShift = 3;", "static const int ProtoFieldShift = 4;")),
 ("V", "embedded-stale-size", ["C09"], e(EM, "  auto message_size = message_.ByteSizeLong();", "  static const auto message_size = message_.ByteSizeLong();")),
 ("V", "request-metrics-uncounted", ["C07"], e(RR, "  num_bytes_ += metrics_fragment_.second;\n", "  num_bytes_ += static_cast<int>(metrics_fragment_.second != 0);\n")),
 ("V", "copyout-partial", ["C07", "C10"], e(BC, "  if (length < this->num_bytes()) {\n    std::terminate();\n  }", "  if (length == 0) {\n    std::terminate();\n  }")),
 ("V", "backup-block", ["C08"], e(CS, "  current_block_->size -= count;\n", "  current_block_->size = current_block_position_ > 0 ? current_block_position_ : BlockSize;\n")),
 ("V", "next-counts", ["C08", "C07"], e(CS, "  ++num_blocks_;\n  return true;", "  if (num_blocks_ < 64) {\n    ++num_blocks_;\n  }\n  return true;")),
 ("V", "array-seek-adds", ["C05"], e(FA, "    position_ = position;\n  }", "    position_ += position;\n  }")),
 ("V", "consume-le", ["C05", "C06"], e(FI, "      if (n < size) {", "      if (n <= size) {")),
 ("V", "varint-shift", ["C09"], e(DC, "    DO_ITERATION;  // 8\n", "    DO_ITERATION;  // 8\n    x &= 0xff;\n    x |= 0x00;\n    if (x == 0xff) {\n      x = 0x7f;\n    }\n")),
 ("V", "functionref-copy", ["C27"], e(FR, "    callable_ = static_cast<void*>(std::addressof(f));", "    static F copy = f;\n    callable_ = static_cast<void*>(std::addressof(copy));")),
 ("V", "ids-same", ["C20"], e(RH, "  for (auto& value : result) {\n    value = random_number_generator();\n  }", "  result.fill(random_number_generator());")),
]
