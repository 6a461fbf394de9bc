from selftest_names import *
M = [
 ("Q", "cb-add-helper", [], e(CB, "      // The circular buffer is full, so return false.\n      if (static_cast<size_t>(head - tail) >= capacity_ - 1) {\n        return false;\n      }\n", "      if (IsFull(tail, head)) {\n        return false;\n      }\n", "  CircularBufferRange<AtomicUniquePtr<T>> PeekImpl() noexcept {", "  bool IsFull(int64_t tail, int64_t head) const noexcept {\n    return static_cast<size_t>(head - tail) >= max_size();\n  }\n\n  CircularBufferRange<AtomicUniquePtr<T>> PeekImpl() noexcept {")),
 ("Q", "cb-add-for", [], e(CB, "    while (true) {\n      int64_t tail = tail_;", "    for (;;) {\n      int64_t tail = tail_.load();", "      int64_t head_index = head % capacity_;\n      if (data_[head_index].SwapIfNull(ptr)) {", "      auto& slot = data_[head % capacity_];\n      if (!slot.SwapIfNull(ptr)) {\n        continue;\n      }\n      {", "        data_[head_index].Swap(ptr);\n", "        slot.Swap(ptr);\n", "    return true;\n  }\n\n  /**\n   * Clear", "  }\n\n  /**\n   * Clear")),
 ("Q", "cb-strong-cas", [], e(CB, "head_.compare_exchange_weak(expected_head, new_head,", "head_.compare_exchange_strong(expected_head, new_head,")),
 ("Q", "cb-consume-loop", [], e(CB, "    Consume(\n        n, [](CircularBufferRange<AtomicUniquePtr<T>> & range) noexcept {\n          range.ForEach([](AtomicUniquePtr<T> & ptr) noexcept {\n            ptr.Reset();\n            return true;\n          });\n        });", "    auto reset_all = [](CircularBufferRange<AtomicUniquePtr<T>> & range) noexcept {\n      auto reset_one = [](AtomicUniquePtr<T> & ptr) noexcept {\n        ptr.Reset();\n        return true;\n      };\n      range.ForEach(reset_one);\n    };\n    Consume(n, reset_all);")),
 ("Q", "cb-peek-reordered", [], e(CB, "    int64_t tail_index = tail_ % capacity_;\n    int64_t head_index = head_ % capacity_;\n    if (head_index == tail_index) {\n      return {};\n    }\n    auto data = data_.get();", "    auto data = data_.get();\n    const int64_t head_index = head_ % capacity_;\n    const int64_t tail_index = tail_ % capacity_;\n    const bool is_empty = head_index == tail_index;\n    if (is_empty) {\n      return CircularBufferRange<AtomicUniquePtr<T>>{};\n    }")),
 ("Q", "cb-consume-fetch-add", [], e(CB, "    tail_ += n;\n", "    tail_.fetch_add(static_cast<int64_t>(n));\n")),
 ("Q", "cr-size-sum", [], e(CR, "    return static_cast<size_t>(std::distance(first1_, last1_) +\n                               std::distance(first2_, last2_));", "    const auto size1 = last1_ - first1_;\n    const auto size2 = last2_ - first2_;\n    return static_cast<size_t>(size1) + static_cast<size_t>(size2);")),
 ("Q", "cr-foreach-helper", [], e(CR, "    for (auto iter = first1_; iter != last1_; ++iter) {\n      if (!callback(*iter)) {\n        return false;\n      }\n    }\n    for (auto iter = first2_; iter != last2_; ++iter) {\n      if (!callback(*iter)) {\n        return false;\n      }\n    }\n    return true;", "    T* iter = first1_;\n    while (iter != last1_) {\n      if (!callback(*iter)) {\n        return false;\n      }\n      ++iter;\n    }\n    iter = first2_;\n    while (iter != last2_) {\n      if (!callback(*iter++)) {\n        return false;\n      }\n    }\n    return true;")),
 ("Q", "cr-take-lt", [], e(CR, "    auto size1 = std::distance(first1_, last1_);\n    if (static_cast<size_t>(size1) >= n) {\n      return {first1_, first1_ + n, nullptr, nullptr};\n    }\n    return {first1_, last1_, first2_, first2_ + (n - size1)};", "    const auto size1 = static_cast<size_t>(last1_ - first1_);\n    if (n <= size1) {\n      return {first1_, first1_ + n, nullptr, nullptr};\n    }\n    const auto remaining = n - size1;\n    return {first1_, last1_, first2_, first2_ + remaining};")),
 ("Q", "au-strong", [], e(AU, "    auto was_successful = ptr_.compare_exchange_weak(\n        expected, ptr, std::memory_order_release, std::memory_order_relaxed);\n    if (was_successful) {\n      owner.release();\n      return true;\n    }\n    return false;", "    if (!ptr_.compare_exchange_strong(expected, ptr, std::memory_order_release,\n                                      std::memory_order_relaxed)) {\n      return false;\n    }\n    owner.release();\n    return true;")),
 ("Q", "au-reset-unconditional", [], e(AU, "    ptr = ptr_.exchange(ptr);\n    if (ptr != nullptr) {\n      delete ptr;\n    }", "    T* previous = ptr_.exchange(ptr);\n    delete previous;")),
 ("Q", "au-swap-locals", [], e(AU, "    ptr.reset(ptr_.exchange(ptr.release()));", "    T* incoming = ptr.release();\n    T* outgoing = ptr_.exchange(incoming);\n    ptr.reset(outgoing);")),
 ("Q", "mt-fetch-add", [], e(MT, "  num_dropped_spans_ += num_spans;", "  num_dropped_spans_.fetch_add(num_spans);", "  return num_dropped_spans_.exchange(0);", "  const int result = num_dropped_spans_.exchange(0);\n  return result;")),
 ("Q", "mt-drop-order", [], e(MH, "    metrics_observer_.OnSpansDropped(num_spans);\n    num_dropped_spans_ += num_spans;", "    num_dropped_spans_ += num_spans;\n    metrics_observer_.OnSpansDropped(num_spans);")),
 ("Q", "ss-clear-local", [], e(SS, "  metrics_.OnSpansSent(allotment_.size());\n  span_buffer_.Consume(allotment_.size());\n", "  const auto num_spans = allotment_.size();\n  metrics_.OnSpansSent(static_cast<int>(num_spans));\n  span_buffer_.Consume(num_spans);\n")),
 ("Q", "ss-seek-order", [], e(SS, "  metrics_.OnSpansSent(full_span_count);\n  allotment_ = CircularBufferRange<const AtomicUniquePtr<ChainedStream>>{};\n}\n}", "  allotment_ = {};\n  metrics_.OnSpansSent(full_span_count);\n}\n}")),
 ("Q", "ss-foreach-named", [], e(SS, "  return allotment_.ForEach(\n      [callback](const AtomicUniquePtr<ChainedStream>& span) {\n        return span->ForEachFragment(callback);\n      });", "  auto visit = [&](const AtomicUniquePtr<ChainedStream>& span) {\n    const bool keep_going = span->ForEachFragment(callback);\n    return keep_going;\n  };\n  return allotment_.ForEach(visit);")),
 ("Q", "ss-remnant-move", [], e(SS, "  return std::unique_ptr<ChainedStream>{remnant_.release()};", "  std::unique_ptr<ChainedStream> result;\n  result.swap(remnant_);\n  return result;")),
 ("Q", "cs-next-helper", [], e(CS, "  current_block_->next.reset(new Block{});\n  current_block_ = current_block_->next.get();\n  current_block_->size = BlockSize;\n", "  std::unique_ptr<Block> block{new Block{}};\n  block->size = BlockSize;\n  current_block_->next = std::move(block);\n  current_block_ = current_block_->next.get();\n")),
 ("Q", "cs-foreach-single-loop", [], e(CS, "  auto block = current_block_;\n\n  auto block_size = block->size;\n  assert(block_size >= fragment_position_);\n  if (!callback(static_cast<void*>(const_cast<char*>(block->data.data()) +\n                                   fragment_position_),\n                block_size - fragment_position_)) {\n    return false;\n  }\n\n  block = block->next.get();\n  while (block != nullptr) {\n    if (!callback(static_cast<void*>(const_cast<char*>(block->data.data())),\n                  block->size)) {\n      return false;\n    }\n    block = block->next.get();\n  }\n  return true;", "  int offset = fragment_position_;\n  for (const Block* block = current_block_; block != nullptr;\n       block = block->next.get()) {\n    auto data = const_cast<char*>(block->data.data()) + offset;\n    if (!callback(static_cast<void*>(data), block->size - offset)) {\n      return false;\n    }\n    offset = 0;\n  }\n  return true;")),
 ("Q", "cs-seek-while", [], e(CS, "  for (int i = 0; i < relative_fragment_index; ++i) {\n    current_block_ = current_block_->next.get();\n  }\n", "  int remaining = relative_fragment_index;\n  while (remaining > 0) {\n    current_block_ = current_block_->next.get();\n    --remaining;\n  }\n")),
 ("Q", "cs-backup-order", [], e(CS, "  num_bytes_written_ -= count;\n  current_block_position_ -= count;\n  current_block_->size -= count;\n", "  current_block_->size -= count;\n  current_block_position_ = current_block_->size;\n  num_bytes_written_ -= count;\n")),
 ("Q", "cf-for-loops", [], e(CF, "  auto stream = this;\n  int result = 0;\n  while (stream != nullptr) {\n    result += stream->segment_num_fragments();\n    stream = stream->next_.get();\n  }\n  return result;", "  int result = 0;\n  for (auto stream = this; stream != nullptr; stream = stream->next_.get()) {\n    result = result + stream->segment_num_fragments();\n  }\n  return result;", "  auto stream = this;\n  while (stream != nullptr) {\n    if (!stream->SegmentForEachFragment(callback)) {\n      return false;\n    }\n    stream = stream->next_.get();\n  }\n  return true;", "  for (auto stream = this; stream != nullptr; stream = stream->next_.get()) {\n    if (!stream->SegmentForEachFragment(callback)) {\n      return false;\n    }\n  }\n  return true;")),
 ("Q", "cf-append-else", [], e(CF, "    next_ = std::move(stream);\n    last_ = next_.get();\n    return;\n  }\n", "    last_ = stream.get();\n    next_ = std::move(stream);\n    return;\n  }\n")),
 ("Q", "cf-recursive-clear", [], e(CF, "  auto stream = this;\n  while (stream != nullptr) {\n    stream->SegmentClear();\n    stream = stream->next_.get();\n  }", "  for (auto stream = this; stream != nullptr;) {\n    auto next = stream->next_.get();\n    stream->SegmentClear();\n    stream = next;\n  }")),
 ("Q", "cf-seek-else", [], e(CF, "      return stream->SegmentSeek(fragment_index, position);\n    }\n", "      stream->SegmentSeek(fragment_index, position);\n      return;\n    }\n")),
 ("Q", "fa-foreach-loop", [], e(FA, "  auto current_fragment = fragments_[fragment_index_];\n  auto result =\n      callback(static_cast<void*>(static_cast<char*>(current_fragment.first) +\n                                  position_),\n               current_fragment.second - position_);\n  if (!result) {\n    return false;\n  }\n\n  for (int i = fragment_index_ + 1; i < static_cast<int>(fragments_.size());\n       ++i) {\n    if (!callback(fragments_[i].first, fragments_[i].second)) {\n      return false;\n    }\n  }\n  return true;", "  int offset = position_;\n  const int n = static_cast<int>(fragments_.size());\n  for (int i = fragment_index_; i < n; ++i) {\n    const Fragment& fragment = fragments_[i];\n    if (!callback(static_cast<char*>(fragment.first) + offset,\n                  fragment.second - offset)) {\n      return false;\n    }\n    offset = 0;\n  }\n  return true;")),
 ("Q", "fa-seek-early", [], e(FA, "  if (fragment_index == 0) {\n    position_ += position;\n  } else {\n    fragment_index_ += fragment_index;\n    position_ = position;\n  }\n", "  if (fragment_index > 0) {\n    position_ = 0;\n  }\n  fragment_index_ += fragment_index;\n  position_ += position;\n")),
 ("Q", "fi-consume-ge", [], e(FI, "      if (n < size) {\n        return false;\n      }\n      ++fragment_index;\n      n -= size;\n      return true;", "      if (size <= n) {\n        n -= size;\n        ++fragment_index;\n        return true;\n      }\n      return false;")),
 ("Q", "fi-consume-flag", [], e(FI, "    if (!fragment_input_stream->ForEachFragment(f)) {\n      fragment_input_stream->Seek(fragment_index, n);\n      return false;\n    }\n    fragment_input_stream->Clear();", "    const bool consumed = fragment_input_stream->ForEachFragment(f);\n    if (consumed) {\n      fragment_input_stream->Clear();\n      continue;\n    }\n    fragment_input_stream->Seek(fragment_index, n);\n    return false;")),
 ("Q", "vw-count-helper", [], e(VW, "  int num_fragments = 0;\n  for (auto fragment_input_stream : fragment_input_streams) {\n    num_fragments += fragment_input_stream->num_fragments();\n  }\n", "  const int num_fragments = CountFragments(fragment_input_streams);\n", "bool Write(int socket,", "static int CountFragments(\n    const std::initializer_list<FragmentInputStream*>& streams) noexcept {\n  int result = 0;\n  for (auto stream : streams) {\n    result += stream->num_fragments();\n  }\n  return result;\n}\n\nbool Write(int socket,")),
 ("Q", "vw-blocked-merge", [], e(VW, "      if (IsBlockingErrorCode(error_code)) {\n        blocked = true;\n      } else {\n        error = true;\n      }\n      return;", "      blocked = IsBlockingErrorCode(error_code);\n      error = !blocked;\n      return;")),
 ("Q", "vw-throw-helper", [], e(VW, "    std::ostringstream oss;\n    oss << \"writev failed: \" << GetErrorCodeMessage(error_code);\n    throw std::runtime_error{oss.str()};", "    throw std::runtime_error{\"writev failed: \" +\n                             GetErrorCodeMessage(error_code)};")),
 ("Q", "vw-result-order", [], e(VW, "  auto result = Consume(fragment_input_streams, num_bytes_written);\n  if (error) {", "  const bool result = Consume(fragment_input_streams, num_bytes_written);\n  if (!error) {\n    return result;\n  }\n  {", "    throw std::runtime_error{oss.str()};\n  }\n  return result;", "    throw std::runtime_error{oss.str()};\n  }")),
 ("Q", "so-throw-helper", [], e(SO, "Socket::Socket() : Socket{AF_INET, SOCK_STREAM} {}", "[[noreturn]] static void Fail(const char* what, ErrorCode code) {\n  std::ostringstream oss;\n  oss << what << GetErrorCodeMessage(code);\n  throw std::runtime_error{oss.str()};\n}\n\nSocket::Socket() : Socket{AF_INET, SOCK_STREAM} {}", "  if (rcode == -1) {\n    std::ostringstream oss;\n    oss << \"failed to set the socket as non-blocking: \"\n        << GetErrorCodeMessage(GetLastErrorCode());\n    throw std::runtime_error{oss.str()};\n  }", "  if (rcode < 0) {\n    Fail(\"failed to set the socket as non-blocking: \", GetLastErrorCode());\n  }", "  if (file_descriptor_ == InvalidSocket) {\n    std::ostringstream oss;\n    oss << \"failed to create socket: \"\n        << GetErrorCodeMessage(GetLastErrorCode());\n    throw std::runtime_error{oss.str()};\n  }", "  if (file_descriptor_ == InvalidSocket) {\n    Fail(\"failed to create socket: \", GetLastErrorCode());\n  }")),
 ("Q", "so-move-swap", [], e(SO, "Socket::Socket(Socket&& other) noexcept {\n  file_descriptor_ = other.file_descriptor_;\n  other.file_descriptor_ = InvalidSocket;\n}", "Socket::Socket(Socket&& other) noexcept\n    : file_descriptor_{other.file_descriptor_} {\n  other.file_descriptor_ = InvalidSocket;\n}", "  Free();\n  file_descriptor_ = other.file_descriptor_;\n  other.file_descriptor_ = InvalidSocket;\n  return *this;", "  const auto file_descriptor = other.file_descriptor_;\n  other.file_descriptor_ = InvalidSocket;\n  Free();\n  file_descriptor_ = file_descriptor;\n  return *this;")),
 ("Q", "so-free-early", [], e(SO, "  if (file_descriptor_ != InvalidSocket) {\n    CloseSocket(file_descriptor_);\n  }", "  if (file_descriptor_ == InvalidSocket) {\n    return;\n  }\n  CloseSocket(file_descriptor_);\n  file_descriptor_ = InvalidSocket;")),
 ("Q", "so-connect-ifs", [], e(SO, "  int rcode;\n  switch (ip_address.family()) {\n    case AF_INET:\n      rcode =\n          socket.Connect(ip_address.addr(), sizeof(ip_address.ipv4_address()));\n      break;\n    case AF_INET6:\n      rcode =\n          socket.Connect(ip_address.addr(), sizeof(ip_address.ipv6_address()));\n      break;\n    default:\n      throw std::runtime_error{\"Unknown socket family.\"};\n  }\n", "  size_t size = 0;\n  if (ip_address.family() == AF_INET) {\n    size = sizeof(sockaddr_in);\n  } else if (ip_address.family() == AF_INET6) {\n    size = sizeof(sockaddr_in6);\n  } else {\n    throw std::runtime_error{\"Unknown socket family.\"};\n  }\n  const int rcode = socket.Connect(ip_address.addr(), size);\n")),
 ("Q", "so-connect-pending", [], e(SO, "  auto error_code = GetLastErrorCode();\n  if (!IsInProgressErrorCode(error_code) && !IsBlockingErrorCode(error_code)) {", "  const auto error_code = GetLastErrorCode();\n  const bool is_pending =\n      IsInProgressErrorCode(error_code) || IsBlockingErrorCode(error_code);\n  if (!is_pending) {")),
 ("Q", "pn-nonblocking-locals", [], e(PN, "  return ::fcntl(socket, F_SETFL, ::fcntl(socket, F_GETFL, 0) | O_NONBLOCK);", "  const int flags = ::fcntl(socket, F_GETFL, 0);\n  if (flags == -1) {\n    return -1;\n  }\n  return ::fcntl(socket, F_SETFL, flags | O_NONBLOCK);")),
 ("Q", "pu-array", [], e(PU, "  constexpr int path_max = 1024;\n  std::unique_ptr<char[]> exe_path{new char[path_max]};\n  ssize_t size = ::readlink(\"/proc/self/exe\", exe_path.get(), path_max);\n  if (size == -1) {", "  char exe_path[1024];\n  const ssize_t size =\n      ::readlink(\"/proc/self/exe\", exe_path, sizeof(exe_path));\n  if (size < 0) {", "  std::string path(exe_path.get(), size);", "  const std::string path(exe_path, static_cast<size_t>(size));")),
 ("Q", "ip-switch", [], e(IP, "  if (addr.sa_family == AF_INET) {\n    reinterpret_cast<sockaddr_in&>(data_) =\n        reinterpret_cast<const sockaddr_in&>(addr);\n  } else if (addr.sa_family == AF_INET6) {\n    reinterpret_cast<sockaddr_in6&>(data_) =\n        reinterpret_cast<const sockaddr_in6&>(addr);\n  } else {\n    assert(0 && \"Unknown address family\");\n  }", "  switch (addr.sa_family) {\n    case AF_INET:\n      std::memcpy(&data_, &addr, sizeof(sockaddr_in));\n      break;\n    case AF_INET6:\n      std::memcpy(&data_, &addr, sizeof(sockaddr_in6));\n      break;\n    default:\n      assert(0 && \"Unknown address family\");\n  }")),
 ("Q", "ip-setport-switch", [], e(IP, "  if (family() == AF_INET) {\n    reinterpret_cast<sockaddr_in&>(data_).sin_port = htons(port);\n    return;\n  }\n  if (family() == AF_INET6) {\n    reinterpret_cast<sockaddr_in6&>(data_).sin6_port = htons(port);\n    return;\n  }\n", "  const auto network_port = htons(port);\n  switch (family()) {\n    case AF_INET:\n      reinterpret_cast<sockaddr_in&>(data_).sin_port = network_port;\n      return;\n    case AF_INET6:\n      reinterpret_cast<sockaddr_in6&>(data_).sin6_port = network_port;\n      return;\n    default:\n      break;\n  }\n")),
 ("Q", "ip-eq-locals", [], e(IP, "    return lhs.ipv4_address().sin_port == rhs.ipv4_address().sin_port &&\n           lhs.ipv4_address().sin_addr.s_addr ==\n               rhs.ipv4_address().sin_addr.s_addr;", "    const auto& a = lhs.ipv4_address();\n    const auto& b = rhs.ipv4_address();\n    if (a.sin_addr.s_addr != b.sin_addr.s_addr) {\n      return false;\n    }\n    return a.sin_port == b.sin_port;")),
 ("Q", "ip-print-helper", [], e(IP, "  const char* s = nullptr;\n  if (ip_address.family() == AF_INET) {\n    s = inet_ntop(AF_INET, &ip_address.ipv4_address().sin_addr, buffer.data(),\n                  sizeof(buffer));\n  } else if (ip_address.family() == AF_INET6) {\n    s = inet_ntop(AF_INET6, &ip_address.ipv6_address().sin6_addr, buffer.data(),\n                  sizeof(buffer));\n  }", "  const char* s = nullptr;\n  const void* source = nullptr;\n  if (ip_address.family() == AF_INET) {\n    source = &ip_address.ipv4_address().sin_addr;\n  } else if (ip_address.family() == AF_INET6) {\n    source = &ip_address.ipv6_address().sin6_addr;\n  }\n  if (source != nullptr) {\n    s = inet_ntop(ip_address.family(), source, buffer.data(), buffer.size());\n  }")),
 ("Q", "pb-size-sum", [], e(PB, "  size_t result = google::protobuf::io::CodedOutputStream::VarintSize32(\n      ComputeStreamMessageKey(field, WireTypeLengthDelimited));\n  result +=\n      google::protobuf::io::CodedOutputStream::VarintSize64(message_size) +\n      message_size;\n  return result;", "  const auto key = ComputeStreamMessageKey(field, WireTypeLengthDelimited);\n  const size_t header_size =\n      google::protobuf::io::CodedOutputStream::VarintSize64(message_size) +\n      google::protobuf::io::CodedOutputStream::VarintSize32(key);\n  return header_size + message_size;")),
 ("Q", "em-locals", [], e(EM, "  buffer_.resize(ComputeEmbeddedMessageSerializationSize(\n      collector::ReportRequest::kInternalMetricsFieldNumber, message_size));", "  const auto fragment_size = ComputeEmbeddedMessageSerializationSize(\n      collector::ReportRequest::kInternalMetricsFieldNumber, message_size);\n  buffer_.resize(fragment_size);")),
 ("Q", "rr-addspan-order", [], e(RR, "  ++num_spans_;\n  num_fragments_ += span->num_fragments();\n  span->ForEachFragment([&](void* /*data*/, int length) {\n    num_bytes_ += static_cast<size_t>(length);\n    return true;\n  });\n", "  int num_bytes = 0;\n  span->ForEachFragment([&num_bytes](void* /*data*/, int length) {\n    num_bytes += length;\n    return true;\n  });\n  num_bytes_ += num_bytes;\n  num_fragments_ += span->num_fragments();\n  ++num_spans_;\n")),
 ("Q", "rr-addspan-else", [], e(RR, "  if (spans_ == nullptr) {\n    spans_ = std::move(span);\n    return;\n  }\n  spans_->Append(std::move(span));", "  if (spans_ != nullptr) {\n    spans_->Append(std::move(span));\n  } else {\n    spans_ = std::move(span);\n  }")),
 ("Q", "rr-foreach-and", [], e(RR, "  if (metrics_ != nullptr) {\n    if (!callback(context, metrics_fragment_.first,\n                  static_cast<size_t>(metrics_fragment_.second))) {\n      return false;\n    }\n  }", "  if (metrics_ != nullptr &&\n      !callback(context, metrics_fragment_.first,\n                static_cast<size_t>(metrics_fragment_.second))) {\n    return false;\n  }")),
 ("Q", "bc-memcpy", [], e(BC, "    auto out = static_cast<char**>(context);\n    *out = std::copy_n(static_cast<const char*>(fragment_data), fragment_size,\n                       *out);\n    return true;", "    auto& out = *static_cast<char**>(context);\n    std::memcpy(out, fragment_data, fragment_size);\n    out += fragment_size;\n    return true;", "#include <algorithm>", "#include <algorithm>\n#include <cstring>")),
 ("Q", "rt-while", [], e(RT, "  for (int i = 0; i < n_minus_1; ++i) {\n    std::uniform_int_distribution<int> distribution{i, n_minus_1};\n    std::swap(indexes_[i], indexes_[distribution(GetRandomNumberGenerator())]);\n    if (!callback(indexes_[i])) {\n      return false;\n    }\n  }\n  return callback(indexes_.back());", "  auto& generator = GetRandomNumberGenerator();\n  int i = 0;\n  while (i < n_minus_1) {\n    std::uniform_int_distribution<int> distribution{i, n_minus_1};\n    const int j = distribution(generator);\n    std::swap(indexes_[i], indexes_[j]);\n    const bool keep_going = callback(indexes_[i]);\n    if (!keep_going) {\n      return false;\n    }\n    ++i;\n  }\n  return callback(indexes_.back());")),
 ("Q", "rt-to-n", [], e(RT, "  for (int i = 0; i < n_minus_1; ++i) {", "  for (int i = 0; i <= n_minus_1; ++i) {", "  return callback(indexes_.back());", "  return true;")),
 ("Q", "rn-seed-array", [], e(RN, "    std::seed_seq seed_seq{random_device(), random_device(), random_device(),\n                           random_device()};\n    engine_.seed(seed_seq);", "    std::array<std::seed_seq::result_type, 4> entropy;\n    for (auto& value : entropy) {\n      value = random_device();\n    }\n    std::seed_seq seed_seq(entropy.begin(), entropy.end());\n    engine_.seed(seed_seq);", "#include <cassert>", "#include <array>\n#include <cassert>")),
 ("Q", "fg-step-locals", [], e(FG, "    auto& state_a = state_[0];\n    auto& state_b = state_[1];\n    auto t = state_a;\n    auto s = state_b;\n    state_a = s;\n", "    auto t = state_[0];\n    const auto s = state_[1];\n    state_[0] = s;\n", "    state_b = t;\n    return t + s;", "    state_[1] = t;\n    return s + t;")),
 ("Q", "ts-locals", [], e(TS, "  return ComputeNanosecondsSinceEpoch(system_now) -\n         ComputeNanosecondsSinceEpoch(steady_now);", "  const auto steady = ComputeNanosecondsSinceEpoch(steady_now);\n  const auto system = ComputeNanosecondsSinceEpoch(system_now);\n  return system - steady;", "  auto steady_now = std::chrono::steady_clock::now();\n  auto system_now = std::chrono::system_clock::now();\n", "  auto system_now = std::chrono::system_clock::now();\n  auto steady_now = std::chrono::steady_clock::now();\n")),
 ("Q", "ut-index-loop", [], e(UT, "  for (auto& endpoint : endpoints) {\n    hosts.emplace_back(endpoint.first.c_str());\n  }", "  for (size_t i = 0; i < endpoints.size(); ++i) {\n    hosts.push_back(endpoints[i].first.c_str());\n  }")),
 ("Q", "ut-index-minus", [], e(UT, "    indexed_endpoints.emplace_back(\n        static_cast<int>(std::distance(hosts.begin(), iter)), endpoint.second);", "    const auto index = static_cast<int>(iter - hosts.begin());\n    indexed_endpoints.emplace_back(index, endpoint.second);")),
 ("Q", "fm-insert-else", [], e(FM, "    if (iter != data_.cend() && iter->first == key) {\n      data_[std::distance(data_.cbegin(), iter)].second = std::move(value);\n      return iter;\n    }\n    return data_.emplace(iter, std::move(key), std::move(value));", "    const bool is_present = iter != data_.cend() && iter->first == key;\n    if (!is_present) {\n      return data_.emplace(iter, std::move(key), std::move(value));\n    }\n    data_[iter - data_.cbegin()].second = std::move(value);\n    return iter;")),
 ("Q", "fm-find-ternary", [], e(FM, "    if (iter != data_.end() && iter->first == key) {\n      return iter;\n    }\n    return data_.end();", "    if (iter == data_.end()) {\n      return iter;\n    }\n    return iter->first == key ? iter : data_.end();")),
 ("Q", "fr-call-local", [], e(FR, "    return invoker_(callable_, std::forward<Args>(args)...);", "    const auto invoker = invoker_;\n    return invoker(callable_, std::forward<Args>(args)...);")),
 ("Q", "sp-do-nothing-loop", [], e(SP, "    while (locked_.test_and_set(std::memory_order_acquire)) {\n    }", "    for (;;) {\n      if (!locked_.test_and_set(std::memory_order_acquire)) {\n        return;\n      }\n    }")),
 ("Q", "al-make", [], e(AL, "    return std::shared_ptr<const AresLibraryHandle>{new AresLibraryHandle{}};", "    std::shared_ptr<const AresLibraryHandle> handle{new AresLibraryHandle{}};\n    return handle;", "  if (status != 0) {", "  if (status != ARES_SUCCESS) {")),
 ("Q", "dc-less", [], e(DC, "    if (x < pow_2_56) {\n      WriteVarint64(x);\n      return;\n    }", "    const bool is_small = x < pow_2_56;\n    if (is_small) {\n      return WriteVarint64(x);\n    }")),
 ("Q", "rh-index", [], e(RH, "  for (auto& value : result) {\n    value = random_number_generator();\n  }", "  for (size_t i = 0; i < N; ++i) {\n    result[i] = random_number_generator();\n  }")),
]
