from selftest_names import *
TH = "src/common/timestamp.cpp"; IM = "src/common/in_memory_stream.cpp"; MT2 = "src/recorder/metrics_tracker.cpp"
M = [
 # ring buffer
 ("Q", "add-full-helper", [], e(CB, "      if (static_cast<size_t>(head - tail) >= capacity_ - 1) {\n        return false;\n      }\n", "      if (IsFull(head, tail)) {\n        return false;\n      }\n", " private:\n  std::unique_ptr<AtomicUniquePtr<T>[]> data_;", " private:\n  bool IsFull(int64_t head, int64_t tail) const noexcept {\n    return static_cast<size_t>(head - tail) >= max_size();\n  }\n\n  std::unique_ptr<AtomicUniquePtr<T>[]> data_;")),
 ("Q", "add-slot-ref", [], e(CB, "      int64_t head_index = head % capacity_;\n      if (data_[head_index].SwapIfNull(ptr)) {\n        auto new_head = head + 1;\n        auto expected_head = head;\n        if (head_.compare_exchange_weak(expected_head, new_head,\n", "      auto& slot = data_[head % capacity_];\n      if (slot.SwapIfNull(ptr)) {\n        if (head_.compare_exchange_weak(head, head + 1,\n", "        data_[head_index].Swap(ptr);\n", "        slot.Swap(ptr);\n")),
 ("Q", "add-publish-helper", [], e(CB, "        auto new_head = head + 1;\n        auto expected_head = head;\n        if (head_.compare_exchange_weak(expected_head, new_head,\n                                        std::memory_order_release,\n                                        std::memory_order_relaxed)) {\n", "        if (Publish(head)) {\n", " private:\n  std::unique_ptr<AtomicUniquePtr<T>[]> data_;", " private:\n  bool Publish(int64_t head) noexcept {\n    auto expected_head = head;\n    return head_.compare_exchange_weak(expected_head, head + 1,\n                                       std::memory_order_release,\n                                       std::memory_order_relaxed);\n  }\n\n  std::unique_ptr<AtomicUniquePtr<T>[]> data_;")),
 ("Q", "consume-direct", [], e(CB, "    Consume(\n        n, [](CircularBufferRange<AtomicUniquePtr<T>> & range) noexcept {\n          range.ForEach([](AtomicUniquePtr<T> & ptr) noexcept {\n            ptr.Reset();\n            return true;\n          });\n        });\n", "    auto free_element = [](AtomicUniquePtr<T> & ptr) noexcept {\n      ptr.Reset();\n      return true;\n    };\n    auto free_range = [&](CircularBufferRange<AtomicUniquePtr<T>> &\n                          range) noexcept {\n      range.ForEach(free_element);\n    };\n    Consume(n, free_range);\n")),
 ("Q", "peek-ternary", [], e(CB, "    auto data = data_.get();\n    if (tail_index < head_index) {\n      return {data + tail_index, data + head_index, nullptr, nullptr};\n    }\n    return {data + tail_index, data + capacity_, data, data + head_index};\n", "    const auto first = data_.get();\n    const auto last = first + capacity_;\n    if (tail_index > head_index) {\n      return {first + tail_index, last, first, first + head_index};\n    }\n    return {first + tail_index, first + head_index, nullptr, nullptr};\n")),
 ("Q", "size-signed", [], e(CB, "    uint64_t tail = tail_;\n    uint64_t head = head_;\n    assert(tail <= head);\n    return head - tail;\n", "    const int64_t tail = tail_;\n    const int64_t head = head_;\n    assert(tail <= head);\n    return static_cast<size_t>(head - tail);\n")),
 ("Q", "empty-by-size", [], e(CB, "  bool empty() const noexcept { return head_ == tail_; }", "  bool empty() const noexcept { return size() == 0; }")),
 ("Q", "range-empty-size", [], e(CR, "    assert((first1_ != last1_) || (first2_ == last2_));\n    return first1_ == last1_;", "    return size() == 0;")),
 ("Q", "range-foreach-helper", [], e(CR, "    for (auto iter = first1_; iter != last1_; ++iter) {\n      if (!callback(*iter)) {\n        return false;\n      }\n    }\n    for (auto iter = first2_; iter != last2_; ++iter) {\n      if (!callback(*iter)) {\n        return false;\n      }\n    }\n    return true;\n", "    auto iter = first1_;\n    while (iter != last1_) {\n      if (!callback(*iter++)) {\n        return false;\n      }\n    }\n    iter = first2_;\n    while (iter != last2_) {\n      if (!callback(*iter++)) {\n        return false;\n      }\n    }\n    return true;\n")),
 ("Q", "range-take-remaining", [], e(CR, "    auto size1 = std::distance(first1_, last1_);\n    if (static_cast<size_t>(size1) >= n) {\n      return {first1_, first1_ + n, nullptr, nullptr};\n    }\n    return {first1_, last1_, first2_, first2_ + (n - size1)};\n", "    const auto size1 = static_cast<size_t>(last1_ - first1_);\n    if (n > size1) {\n      const auto remaining = n - size1;\n      return {first1_, last1_, first2_, first2_ + remaining};\n    }\n    return {first1_, first1_ + n, nullptr, nullptr};\n")),
 ("Q", "ptr-swapifnull-not", [], e(AU, "    auto ptr = owner.get();\n    T* expected = nullptr;\n    auto was_successful = ptr_.compare_exchange_weak(\n        expected, ptr, std::memory_order_release, std::memory_order_relaxed);\n    if (was_successful) {\n      owner.release();\n      return true;\n    }\n    return false;\n", "    T* expected = nullptr;\n    if (!ptr_.compare_exchange_strong(expected, owner.get(),\n                                      std::memory_order_release,\n                                      std::memory_order_relaxed)) {\n      return false;\n    }\n    owner.release();\n    return true;\n")),
 ("Q", "ptr-reset-owner", [], e(AU, "    ptr = ptr_.exchange(ptr);\n    if (ptr != nullptr) {\n      delete ptr;\n    }\n", "    std::unique_ptr<T> old{ptr_.exchange(ptr)};\n")),
 # counter
 ("Q", "mt-consume-cas", [], e(MT, "  return num_dropped_spans_.exchange(0);", "  auto result = num_dropped_spans_.load();\n  while (!num_dropped_spans_.compare_exchange_weak(result, 0)) {\n  }\n  return result;")),
 ("Q", "mt-unconsume-guard", [], e(MT, "  num_dropped_spans_ += num_spans;", "  if (num_spans != 0) {\n    num_dropped_spans_.fetch_add(num_spans);\n  }")),
 # span stream
 ("Q", "ss-foreach-locals", [], e(SS, "  return allotment_.ForEach(\n      [callback](const AtomicUniquePtr<ChainedStream>& span) {\n        return span->ForEachFragment(callback);\n      });\n", "  auto for_span = [&](const AtomicUniquePtr<ChainedStream>& span) {\n    const ChainedStream& stream = *span;\n    return stream.ForEachFragment(callback);\n  };\n  return allotment_.ForEach(for_span);\n")),
 ("Q", "ss-clear-size", [], e(SS, "  metrics_.OnSpansSent(allotment_.size());\n  span_buffer_.Consume(allotment_.size());\n", "  const auto num_spans = allotment_.size();\n  span_buffer_.Consume(num_spans);\n  metrics_.OnSpansSent(static_cast<int>(num_spans));\n")),
 ("Q", "ss-remnant-swap", [], e(SS, "  return std::unique_ptr<ChainedStream>{remnant_.release()};", "  std::unique_ptr<ChainedStream> result;\n  std::swap(result, remnant_);\n  return result;")),
 ("Q", "ss-allot-named", [], e(SS, "void SpanStream::Allot() noexcept { allotment_ = span_buffer_.Peek(); }", "void SpanStream::Allot() noexcept {\n  auto available = span_buffer_.Peek();\n  allotment_ = available;\n}")),
 # chained stream
 ("Q", "cs-backup-helper", [], e(CS, "  num_bytes_written_ -= count;\n  current_block_position_ -= count;\n  current_block_->size -= count;\n", "  auto& block = *current_block_;\n  block.size -= count;\n  num_bytes_written_ -= count;\n  current_block_position_ = current_block_position_ - count;\n")),
 ("Q", "cs-num-fragments-ternary", [], e(CS, "  if (num_bytes_written_ == 0) {\n    return 0;\n  }\n  return num_blocks_ - fragment_index_;\n", "  return num_bytes_written_ != 0 ? num_blocks_ - fragment_index_ : 0;\n")),
 ("Q", "cs-foreach-for", [], e(CS, "  auto block = current_block_;\n\n  auto block_size = block->size;\n  assert(block_size >= fragment_position_);\n  if (!callback(static_cast<void*>(const_cast<char*>(block->data.data()) +\n                                   fragment_position_),\n                block_size - fragment_position_)) {\n    return false;\n  }\n\n  block = block->next.get();\n  while (block != nullptr) {\n    if (!callback(static_cast<void*>(const_cast<char*>(block->data.data())),\n                  block->size)) {\n      return false;\n    }\n    block = block->next.get();\n  }\n  return true;\n", "  int position = fragment_position_;\n  for (auto block = current_block_; block != nullptr;\n       block = block->next.get()) {\n    auto data = const_cast<char*>(block->data.data()) + position;\n    if (!callback(static_cast<void*>(data), block->size - position)) {\n      return false;\n    }\n    position = 0;\n  }\n  return true;\n")),
 ("Q", "cs-seek-countdown", [], e(CS, "  for (int i = 0; i < relative_fragment_index; ++i) {\n    current_block_ = current_block_->next.get();\n  }\n", "  auto block = current_block_;\n  for (int i = relative_fragment_index; i > 0; --i) {\n    block = block->next.get();\n  }\n  current_block_ = block;\n")),
 ("Q", "cs-next-block-helper", [], e(CS, "//--------------------------------------------------------------------------------------------------\n// Next\n", "static void HandOut(char* begin, int length, void** data,\n                    int* size) noexcept {\n  *data = static_cast<void*>(begin);\n  *size = length;\n}\n\n//--------------------------------------------------------------------------------------------------\n// Next\n", "    *size = BlockSize - current_block_position_;\n    *data = static_cast<void*>(current_block_->data.data() +\n                               current_block_position_);\n", "    HandOut(current_block_->data.data() + current_block_position_,\n            BlockSize - current_block_position_, data, size);\n", "  *size = BlockSize;\n  num_bytes_written_ += *size;\n  *data = static_cast<void*>(current_block_->data.data());\n", "  HandOut(current_block_->data.data(), BlockSize, data, size);\n  num_bytes_written_ += BlockSize;\n")),
 # composed streams
 ("Q", "cf-count-for", [], e(CF, "  auto stream = this;\n  int result = 0;\n  while (stream != nullptr) {\n    result += stream->segment_num_fragments();\n    stream = stream->next_.get();\n  }\n  return result;\n", "  int result = segment_num_fragments();\n  for (auto stream = next_.get(); stream != nullptr;\n       stream = stream->next_.get()) {\n    result += stream->segment_num_fragments();\n  }\n  return result;\n")),
 ("Q", "cf-seek-break", [], e(CF, "    if (fragment_index < segment_num_fragments) {\n      return stream->SegmentSeek(fragment_index, position);\n    }\n", "    if (fragment_index < segment_num_fragments) {\n      stream->SegmentSeek(fragment_index, position);\n      return;\n    }\n")),
 ("Q", "cf-recursive-num", [], e(CF, "  auto stream = this;\n  int result = 0;\n  while (stream != nullptr) {\n    result += stream->segment_num_fragments();\n    stream = stream->next_.get();\n  }\n  return result;\n", "  auto result = segment_num_fragments();\n  if (next_ != nullptr) {\n    result += next_->num_fragments();\n  }\n  return result;\n")),
 ("Q", "fa-num-max", [], e(FA, "  auto current_fragment = fragments_[fragment_index_];\n  auto result =\n      callback(static_cast<void*>(static_cast<char*>(current_fragment.first) +\n                                  position_),\n               current_fragment.second - position_);\n  if (!result) {\n    return false;\n  }\n", "  const auto& current = fragments_[fragment_index_];\n  auto data = static_cast<char*>(current.first) + position_;\n  const auto size = current.second - position_;\n  if (!callback(static_cast<void*>(data), size)) {\n    return false;\n  }\n")),
 ("Q", "fa-loop-merged", [], e(FA, "  auto current_fragment = fragments_[fragment_index_];\n  auto result =\n      callback(static_cast<void*>(static_cast<char*>(current_fragment.first) +\n                                  position_),\n               current_fragment.second - position_);\n  if (!result) {\n    return false;\n  }\n\n  for (int i = fragment_index_ + 1; i < static_cast<int>(fragments_.size());\n       ++i) {\n    if (!callback(fragments_[i].first, fragments_[i].second)) {\n      return false;\n    }\n  }\n  return true;", "  auto offset = position_;\n  const auto n = static_cast<int>(fragments_.size());\n  for (int i = fragment_index_; i < n; ++i) {\n    auto data = static_cast<char*>(fragments_[i].first) + offset;\n    if (!callback(static_cast<void*>(data), fragments_[i].second - offset)) {\n      return false;\n    }\n    offset = 0;\n  }\n  return true;")),
 ("Q", "fa-assign-order", [], e(FA, "  fragments_ = fragments;\n  fragment_index_ = 0;\n  position_ = 0;\n  return *this;", "  Clear();\n  fragments_ = fragments;\n  return *this;")),
 ("Q", "fi-iterators", [], e(FI, "  for (auto fragment_input_stream : fragment_input_streams) {\n    int fragment_index = 0;", "  for (auto iter = fragment_input_streams.begin();\n       iter != fragment_input_streams.end(); ++iter) {\n    auto fragment_input_stream = *iter;\n    int fragment_index = 0;")),
 # vectored write
 ("Q", "vw-flush-lambda", [], e(VW, "  auto do_fragment = [&](void* data, int size) noexcept {\n    *fragment_iter++ = MakeIoVec(data, static_cast<size_t>(size));\n    batch_num_bytes += size;\n    if (fragment_iter != fragment_last) {\n      return true;\n    }\n    do_write();\n    fragment_iter = fragments;\n    batch_num_bytes = 0;\n    return !(error || blocked);\n  };\n", "  auto flush_batch = [&]() noexcept {\n    do_write();\n    fragment_iter = fragments;\n    batch_num_bytes = 0;\n  };\n  auto do_fragment = [&](void* data, int size) noexcept {\n    *fragment_iter = MakeIoVec(data, static_cast<size_t>(size));\n    ++fragment_iter;\n    batch_num_bytes += size;\n    if (fragment_iter == fragment_last) {\n      flush_batch();\n      return !error && !blocked;\n    }\n    return true;\n  };\n")),
 ("Q", "vw-early-else", [], e(VW, "    if (rcode < 0) {\n      error_code = GetLastErrorCode();\n      if (IsBlockingErrorCode(error_code)) {\n        blocked = true;\n      } else {\n        error = true;\n      }\n      return;\n    }\n    auto num_batch_bytes_written = static_cast<int>(rcode);\n    assert(num_batch_bytes_written <= batch_num_bytes);\n    num_bytes_written += num_batch_bytes_written;\n    if (num_batch_bytes_written < batch_num_bytes) {\n      blocked = true;\n    }\n", "    if (rcode >= 0) {\n      num_bytes_written += rcode;\n      blocked = rcode < batch_num_bytes;\n    } else {\n      error_code = GetLastErrorCode();\n      blocked = IsBlockingErrorCode(error_code);\n      error = !blocked;\n    }\n")),
 # request
 ("Q", "rr-foreach-lambda", [], e(RR, "  if (metrics_ != nullptr) {\n    if (!callback(context, metrics_fragment_.first,\n                  static_cast<size_t>(metrics_fragment_.second))) {\n      return false;\n    }\n  }\n", "  const bool has_metrics = metrics_ != nullptr;\n  if (has_metrics && !callback(context, metrics_fragment_.first,\n                               static_cast<size_t>(metrics_fragment_.second))) {\n    return false;\n  }\n")),
 ("Q", "em-fragment-local", [], e(EM, "  buffer_.resize(ComputeEmbeddedMessageSerializationSize(\n      collector::ReportRequest::kInternalMetricsFieldNumber, message_size));\n", "  const auto field =\n      static_cast<uint32_t>(collector::ReportRequest::kInternalMetricsFieldNumber);\n  const auto fragment_size =\n      ComputeEmbeddedMessageSerializationSize(field, message_size);\n  buffer_.resize(fragment_size);\n")),
 ("Q", "pb-key-local", [], e(PB, "  stream.WriteVarint32(ComputeStreamMessageKey(field, WireTypeLengthDelimited));\n", "  const auto key = ComputeStreamMessageKey(field, WireTypeLengthDelimited);\n  stream.WriteVarint32(key);\n", "  return (field << ProtoFieldShift) | wire_type;\n", "  return field * 8u + wire_type;\n")),
 # numbers
 ("Q", "rt-last-in-loop", [], e(RT, "  if (indexes_.empty()) {\n    return true;\n  }\n  auto n_minus_1 = static_cast<int>(indexes_.size()) - 1;\n  for (int i = 0; i < n_minus_1; ++i) {\n    std::uniform_int_distribution<int> distribution{i, n_minus_1};\n    std::swap(indexes_[i], indexes_[distribution(GetRandomNumberGenerator())]);\n    if (!callback(indexes_[i])) {\n      return false;\n    }\n  }\n  return callback(indexes_.back());\n", "  const auto n = static_cast<int>(indexes_.size());\n  for (int i = 0; i < n; ++i) {\n    if (i + 1 < n) {\n      std::uniform_int_distribution<int> distribution{i, n - 1};\n      const int j = distribution(GetRandomNumberGenerator());\n      std::swap(indexes_[i], indexes_[j]);\n    }\n    if (!callback(indexes_[i])) {\n      return false;\n    }\n  }\n  return true;\n")),
 ("Q", "rt-generator-ref", [], e(RT, "  auto n_minus_1 = static_cast<int>(indexes_.size()) - 1;\n", "  auto& generator = GetRandomNumberGenerator();\n  auto n_minus_1 = static_cast<int>(indexes_.size()) - 1;\n", "distribution(GetRandomNumberGenerator())", "distribution(generator)")),
 ("Q", "rn-duration-locals", [], e(RN, "  return std::chrono::nanoseconds{distribution(GetRandomNumberGenerator())};", "  auto& generator = GetRandomNumberGenerator();\n  const auto count = distribution(generator);\n  return std::chrono::nanoseconds{count};")),
 ("Q", "rn-onfork-static", [], e(RN, "    AtFork(nullptr, nullptr, OnFork);", "    AtFork(nullptr, nullptr, [] { Seed(); });")),
 ("Q", "fg-step-array", [], e(FG, "    auto& state_a = state_[0];\n    auto& state_b = state_[1];\n    auto t = state_a;\n    auto s = state_b;\n    state_a = s;\n", "    auto t = state_[0];\n    const auto s = state_[1];\n    state_[0] = s;\n", "    state_b = t;\n    return t + s;", "    state_[1] = t;\n    return s + t;")),
 ("Q", "ts-helper", [], e(TS, "  auto time_since_epoch = std::chrono::nanoseconds{\n      ComputeNanosecondsSinceEpoch(steady_timestamp) + timestamp_delta};\n  return std::chrono::system_clock::time_point{\n      std::chrono::duration_cast<std::chrono::system_clock::duration>(\n          time_since_epoch)};", "  const auto steady_ns = ComputeNanosecondsSinceEpoch(steady_timestamp);\n  const std::chrono::nanoseconds system_ns{timestamp_delta + steady_ns};\n  return std::chrono::system_clock::time_point{} +\n         std::chrono::duration_cast<std::chrono::system_clock::duration>(\n             system_ns);")),
 ("Q", "ut-hosts-loop", [], e(UT, "  for (auto& endpoint : endpoints) {\n    hosts.emplace_back(endpoint.first.c_str());\n  }\n", "  for (size_t i = 0; i != endpoints.size(); ++i) {\n    const std::string& host = endpoints[i].first;\n    hosts.push_back(host.c_str());\n  }\n")),
 ("Q", "ut-index-local", [], e(UT, "    indexed_endpoints.emplace_back(\n        static_cast<int>(std::distance(hosts.begin(), iter)), endpoint.second);\n", "    const auto index = static_cast<int>(iter - hosts.begin());\n    const std::pair<int, uint16_t> indexed_endpoint{index, endpoint.second};\n    indexed_endpoints.push_back(indexed_endpoint);\n")),
 ("Q", "ut-erase-last", [], e(UT, "  hosts.erase(std::unique(hosts.begin(), hosts.end(), equal_to), hosts.end());", "  const auto last = std::unique(hosts.begin(), hosts.end(), equal_to);\n  hosts.erase(last, hosts.end());")),
 ("Q", "fm-insert-mutable", [], e(FM, "    auto iter = this->lower_bound(key);\n    if (iter != data_.cend() && iter->first == key) {\n      data_[std::distance(data_.cbegin(), iter)].second = std::move(value);\n      return iter;\n    }\n    return data_.emplace(iter, std::move(key), std::move(value));", "    const auto iter = this->lower_bound(key);\n    const bool present = iter != data_.cend() && iter->first == key;\n    if (!present) {\n      return data_.emplace(iter, std::move(key), std::move(value));\n    }\n    const auto index = iter - data_.cbegin();\n    data_[index].second = std::move(value);\n    return iter;")),
 ("Q", "fm-find-early", [], e(FM, "    auto iter = this->lower_bound(key);\n    if (iter != data_.end() && iter->first == key) {\n      return iter;\n    }\n    return data_.end();", "    const auto last = data_.end();\n    auto iter = this->lower_bound(key);\n    if (iter == last) {\n      return last;\n    }\n    return iter->first == key ? iter : last;")),
 ("Q", "ip-setport-local", [], e(IP, "  if (family() == AF_INET) {\n    reinterpret_cast<sockaddr_in&>(data_).sin_port = htons(port);\n    return;\n  }\n  if (family() == AF_INET6) {\n    reinterpret_cast<sockaddr_in6&>(data_).sin6_port = htons(port);\n    return;\n  }\n  assert(0 && \"Unknown address family\");\n", "  const auto network_port = htons(port);\n  switch (family()) {\n    case AF_INET:\n      reinterpret_cast<sockaddr_in&>(data_).sin_port = network_port;\n      break;\n    case AF_INET6:\n      reinterpret_cast<sockaddr_in6&>(data_).sin6_port = network_port;\n      break;\n    default:\n      assert(0 && \"Unknown address family\");\n  }\n")),
 ("Q", "so-connect-helper", [], e(SO, "Socket Connect(const IpAddress& ip_address) {\n", "static bool IsPending(ErrorCode error_code) noexcept {\n  return IsInProgressErrorCode(error_code) || IsBlockingErrorCode(error_code);\n}\n\nSocket Connect(const IpAddress& ip_address) {\n", "  if (rcode == 0) {\n    return socket;\n  }\n  auto error_code = GetLastErrorCode();\n  if (!IsInProgressErrorCode(error_code) && !IsBlockingErrorCode(error_code)) {\n    std::ostringstream oss;\n    oss << \"connect failed: \" << GetErrorCodeMessage(error_code);\n    throw std::runtime_error{oss.str()};\n  }\n  return socket;", "  if (rcode != 0) {\n    const auto error_code = GetLastErrorCode();\n    if (!IsPending(error_code)) {\n      throw std::runtime_error{\"connect failed: \" +\n                               GetErrorCodeMessage(error_code)};\n    }\n  }\n  return socket;")),
 ("Q", "so-reuse-first", [], e(SO, "  socket.SetNonblocking();\n  socket.SetReuseAddress();\n  int rcode;", "  socket.SetReuseAddress();\n  socket.SetNonblocking();\n  int rcode;")),
 ("Q", "so-ctor-init", [], e(SO, "Socket::Socket(int family, int type) {\n  file_descriptor_ = ::socket(family, type, 0);\n", "Socket::Socket(int family, int type)\n    : file_descriptor_{::socket(family, type, 0)} {\n")),
 ("Q", "b64-encode-for", [], e(B64, "  uint64_t pos = 0;\n  uint8_t next_c = 0;", "  uint64_t pos{0};\n  uint8_t next_c{0};")),
 ("Q", "b64-padding-ifs", [], e(B64, "      if (first_padding_index != cur_read + 2) {\n        // Input contains an invalid character.\n        return {};\n      } else if (b & 0b1111) {\n        // There are unused bits at tail.\n        return {};\n      } else {\n        return result;\n      }\n", "      const bool is_padding = first_padding_index == cur_read + 2;\n      const bool has_unused_bits = (b & 0x0f) != 0;\n      if (!is_padding || has_unused_bits) {\n        return {};\n      }\n      return result;\n")),
 ("Q", "pu-find", [], e(PU, "  size_t lslash = path.rfind('/');\n  if (lslash != std::string::npos) {\n    return path.substr(lslash + 1);\n  }\n  return path;\n", "  const auto slash = path.find_last_of('/');\n  if (slash == std::string::npos) {\n    return path;\n  }\n  path.erase(0, slash + 1);\n  return path;\n")),
 ("Q", "sp-lock-for", [], e(SP, "    while (locked_.test_and_set(std::memory_order_acquire)) {\n    }\n", "    for (;;) {\n      if (!locked_.test_and_set(std::memory_order_acquire)) {\n        return;\n      }\n    }\n")),
 ("Q", "fr-bool", [], e(FR, "  explicit operator bool() const { return invoker_; }", "  explicit operator bool() const { return invoker_ != nullptr; }")),
 ("Q", "dc-branch-order", [], e(DC, "    static const uint64_t pow_2_56 = (1ull << 56);\n    if (x < pow_2_56) {\n", "    constexpr int big_bits = 56;\n    const bool is_small = (x >> big_bits) == 0;\n    if (is_small) {\n")),
]
M += [
 ("V", "wv-truncated", [], e(PN, "static_cast<decltype(message.msg_iovlen)>(iovcnt)", "static_cast<unsigned char>(iovcnt)")),
 ("V", "wv-no-nosignal", [], e(PN, "&message, MSG_NOSIGNAL)", "&message, MSG_DONTWAIT)")),
 ("V", "wv-uninit-control", [], e(PN, "  msghdr message{};\n", "  msghdr message;\n  message.msg_name = nullptr;\n  message.msg_namelen = 0;\n  message.msg_flags = 0;\n")),
 ("V", "pu-terminator", [], e(PU, "  std::string path(exe_path.get(), size);\n", "  exe_path[size] = '\\0';\n  std::string path(exe_path.get());\n")),
 ("V", "swap-two-steps", [], e(AU, "    ptr.reset(ptr_.exchange(ptr.release()));", "    auto old = ptr_.load();\n    ptr_.store(ptr.release());\n    ptr.reset(old);")),
 ("V", "append-last-kept", [], e(CF, "  auto prev_last = last_;\n  last_ = stream.get();\n", "  auto prev_last = last_;\n")),
 ("V", "atfork-swapped", [], e("src/common/platform/fork_unix.cpp", "::pthread_atfork(prepare, parent, child)", "::pthread_atfork(prepare, child, parent)")),
 ("V", "strncasecmp", [], e("src/common/platform/string_unix.cpp", "::strcasecmp(s1, s2)", "::strncasecmp(s1, s2, 255)")),
 ("V", "eintr-blocking", [], e(PE, "error_code == EAGAIN || error_code == EWOULDBLOCK", "error_code == EAGAIN || error_code == EINTR || error_code == EWOULDBLOCK")),
 ("V", "serialize-cached", [], e(EM, "  auto message_size = message_.ByteSizeLong();", "  if (buffer_.empty()) {\n    message_.ByteSizeLong();\n  }\n  auto message_size = static_cast<size_t>(message_.GetCachedSize());")),
 ("Q", "wv-struct-init", [], e(PN, "  msghdr message{};\n  message.msg_iov = const_cast<IoVec*>(iov);\n", "  msghdr message;\n  std::memset(static_cast<void*>(&message), 0, sizeof(message));\n  message.msg_iov = const_cast<IoVec*>(iov);\n", "#include <climits>\n", "#include <climits>\n#include <cstring>\n")),
 ("Q", "wv-helper", [], e(PN, "int WriteV(FileDescriptor socket, const IoVec* iov, int iovcnt) noexcept {\n", "static msghdr MakeMessage(const IoVec* iov, int iovcnt) noexcept {\n  msghdr result{};\n  result.msg_iov = const_cast<IoVec*>(iov);\n  result.msg_iovlen = static_cast<decltype(result.msg_iovlen)>(iovcnt);\n  return result;\n}\n\nint WriteV(FileDescriptor socket, const IoVec* iov, int iovcnt) noexcept {\n", "  msghdr message{};\n  message.msg_iov = const_cast<IoVec*>(iov);\n  message.msg_iovlen = static_cast<decltype(message.msg_iovlen)>(iovcnt);\n", "  const auto message = MakeMessage(iov, iovcnt);\n")),
]
