from selftest_names import *
SE = "src/common/serialization.h"; IM = "src/common/in_memory_stream.cpp"
M = [
 ("Q", "consume-callback-first", [], e(CB, "    tail_ += n;\n    callback(range);\n", "    callback(range);\n    tail_ += n;\n")),
 ("Q", "add-slot", [], e(CB, "      int64_t head_index = head % capacity_;\n      if (data_[head_index].SwapIfNull(ptr)) {", "      auto& slot = data_[head % capacity_];\n      if (slot.SwapIfNull(ptr)) {", "        data_[head_index].Swap(ptr);", "        slot.Swap(ptr);")),
 ("Q", "add-continue", [], e(CB, "      if (data_[head_index].SwapIfNull(ptr)) {\n        auto new_head = head + 1;\n        auto expected_head = head;\n        if (head_", "      if (!data_[head_index].SwapIfNull(ptr)) {\n        continue;\n      }\n      {\n        auto new_head = head + 1;\n        auto expected_head = head;\n        if (head_")),
 ("Q", "peek-counts", [], e(CB, "    int64_t tail_index = tail_ % capacity_;\n    int64_t head_index = head_ % capacity_;\n    if (head_index == tail_index) {\n      return {};\n    }\n", "    const int64_t tail = tail_;\n    const int64_t head = head_;\n    if (head == tail) {\n      return {};\n    }\n    const int64_t tail_index = tail % capacity_;\n    const int64_t head_index = head % capacity_;\n")),
 ("Q", "range-take-min", [], e(CR, "    auto size1 = std::distance(first1_, last1_);\n    if (static_cast<size_t>(size1) >= n) {\n      return {first1_, first1_ + n, nullptr, nullptr};\n    }\n    return {first1_, last1_, first2_, first2_ + (n - size1)};", "    const auto size1 = static_cast<size_t>(last1_ - first1_);\n    if (n > size1) {\n      return {first1_, last1_, first2_, first2_ + (n - size1)};\n    }\n    return {first1_, first1_ + n, nullptr, nullptr};")),
 ("Q", "range-foreach-while", [], e(CR, "    for (auto iter = first1_; iter != last1_; ++iter) {\n      if (!callback(*iter)) {\n        return false;\n      }\n    }\n", "    auto current = first1_;\n    while (current != last1_) {\n      if (!callback(*current++)) {\n        return false;\n      }\n    }\n")),
 ("Q", "ptr-reset-delete", [], e(AU, "    ptr = ptr_.exchange(ptr);\n    if (ptr != nullptr) {\n      delete ptr;\n    }\n", "    delete ptr_.exchange(ptr);\n")),
 ("Q", "ptr-swap-locals", [], e(AU, "    ptr.reset(ptr_.exchange(ptr.release()));", "    T* incoming = ptr.release();\n    T* outgoing = ptr_.exchange(incoming);\n    ptr.reset(outgoing);")),
 ("Q", "ptr-swapifnull-early", [], e(AU, "    if (was_successful) {\n      owner.release();\n      return true;\n    }\n    return false;", "    if (!was_successful) {\n      return false;\n    }\n    owner.release();\n    return true;")),
 ("Q", "counter-relaxed", [], e(MH, "num_dropped_spans_ += num_spans;", "num_dropped_spans_.fetch_add(num_spans, std::memory_order_relaxed);")),
 ("Q", "ss-count-helper", [], e(SS, "//--------------------------------------------------------------------------------------------------\n// Seek\n", "static bool SkipSpan(const AtomicUniquePtr<ChainedStream>& span, int& fragment_index) noexcept {\n  auto num_fragments = span->num_fragments();\n  if (num_fragments > fragment_index) {\n    return false;\n  }\n  fragment_index -= num_fragments;\n  return true;\n}\n\n//--------------------------------------------------------------------------------------------------\n// Seek\n", "    auto num_fragments = span->num_fragments();\n    if (num_fragments <= fragment_index) {\n      fragment_index -= num_fragments;\n      ++span_count;\n      return true;\n    }\n", "    if (SkipSpan(span, fragment_index)) {\n      ++span_count;\n      return true;\n    }\n", "          auto num_fragments = span->num_fragments();\n          if (num_fragments <= fragment_index) {\n            fragment_index -= num_fragments;\n            span.Reset();", "          if (SkipSpan(span, fragment_index)) {\n            span.Reset();")),
 ("Q", "ss-seek-boundary", [], e(SS, "    if (fragment_index == 0 && position == 0) {\n      return false;\n    }\n    ++span_count;\n    return false;", "    if (fragment_index != 0 || position != 0) {\n      ++span_count;\n    }\n    return false;")),
 ("Q", "ss-seek-metrics-first", [], e(SS, "  metrics_.OnSpansSent(full_span_count);\n  allotment_ = CircularBufferRange<const AtomicUniquePtr<ChainedStream>>{};\n", "  allotment_ = {};\n  metrics_.OnSpansSent(full_span_count);\n")),
 ("Q", "ss-clear-order", [], e(SS, "  metrics_.OnSpansSent(allotment_.size());\n  span_buffer_.Consume(allotment_.size());\n", "  const auto num_spans = allotment_.size();\n  span_buffer_.Consume(num_spans);\n  metrics_.OnSpansSent(static_cast<int>(num_spans));\n")),
 ("Q", "cf-recursive-foreach", [], e(CF, "  auto stream = this;\n  while (stream != nullptr) {\n    if (!stream->SegmentForEachFragment(callback)) {\n      return false;\n    }\n    stream = stream->next_.get();\n  }\n  return true;", "  if (!SegmentForEachFragment(callback)) {\n    return false;\n  }\n  return next_ == nullptr || next_->ForEachFragment(callback);")),
 ("Q", "cf-seek-for", [], e(CF, "  auto stream = this;\n  while (stream != nullptr) {\n    auto segment_num_fragments = stream->segment_num_fragments();\n    if (fragment_index < segment_num_fragments) {\n      return stream->SegmentSeek(fragment_index, position);\n    }\n    fragment_index -= segment_num_fragments;\n    stream->SegmentClear();\n    stream = stream->next_.get();\n  }\n", "  for (ComposableFragmentInputStream* stream = this; stream != nullptr;\n       stream = stream->next_.get()) {\n    const int count = stream->segment_num_fragments();\n    if (count > fragment_index) {\n      stream->SegmentSeek(fragment_index, position);\n      return;\n    }\n    stream->SegmentClear();\n    fragment_index -= count;\n  }\n")),
 ("Q", "fi-struct", [], e(FI, "    int fragment_index = 0;\n    auto f = [&n, &fragment_index](void* /*data*/, int size) {\n      if (n < size) {\n        return false;\n      }\n      ++fragment_index;\n      n -= size;\n      return true;\n    };\n", "    int fragment_index = 0;\n    int remaining = n;\n    auto f = [&](void* /*data*/, int size) {\n      const bool whole = size <= remaining;\n      if (whole) {\n        remaining -= size;\n        ++fragment_index;\n      }\n      return whole;\n    };\n", "      fragment_input_stream->Seek(fragment_index, n);\n      return false;\n    }\n", "      fragment_input_stream->Seek(fragment_index, remaining);\n      return false;\n    }\n    n = remaining;\n")),
 ("Q", "fa-seek-sum", [], e(FA, "  if (fragment_index == 0) {\n    position_ += position;\n  } else {\n    fragment_index_ += fragment_index;\n    position_ = position;\n  }\n", "  position_ = position + (fragment_index == 0 ? position_ : 0);\n  fragment_index_ += fragment_index;\n")),
 ("Q", "fa-iterators", [], e(FA, "  for (int i = fragment_index_ + 1; i < static_cast<int>(fragments_.size());\n       ++i) {\n    if (!callback(fragments_[i].first, fragments_[i].second)) {\n      return false;\n    }\n  }\n  return true;", "  for (auto iter = fragments_.begin() + fragment_index_ + 1;\n       iter != fragments_.end(); ++iter) {\n    if (!callback(iter->first, iter->second)) {\n      return false;\n    }\n  }\n  return true;")),
 ("Q", "cs-next-merged", [], e(CS, "  if (current_block_position_ < BlockSize) {\n    *size = BlockSize - current_block_position_;\n    *data = static_cast<void*>(current_block_->data.data() +\n                               current_block_position_);\n    num_bytes_written_ += *size;\n    current_block_position_ = BlockSize;\n    current_block_->size = BlockSize;\n    return true;\n  }\n  current_block_->next.reset(new Block{});\n  current_block_ = current_block_->next.get();\n  current_block_->size = BlockSize;\n  current_block_position_ = BlockSize;\n  *size = BlockSize;\n  num_bytes_written_ += *size;\n  *data = static_cast<void*>(current_block_->data.data());\n  ++num_blocks_;\n  return true;", "  if (current_block_position_ >= BlockSize) {\n    current_block_->next.reset(new Block{});\n    current_block_ = current_block_->next.get();\n    current_block_position_ = 0;\n    ++num_blocks_;\n  }\n  const int room = BlockSize - current_block_position_;\n  *size = room;\n  *data = current_block_->data.data() + current_block_position_;\n  current_block_position_ = BlockSize;\n  current_block_->size = BlockSize;\n  num_bytes_written_ += room;\n  return true;")),
 ("Q", "cs-foreach-do", [], e(CS, "  block = block->next.get();\n  while (block != nullptr) {\n    if (!callback(static_cast<void*>(const_cast<char*>(block->data.data())),\n                  block->size)) {\n      return false;\n    }\n    block = block->next.get();\n  }\n  return true;", "  for (block = block->next.get(); block != nullptr;\n       block = block->next.get()) {\n    auto data = static_cast<void*>(const_cast<char*>(block->data.data()));\n    if (!callback(data, block->size)) {\n      return false;\n    }\n  }\n  return true;")),
 ("Q", "cs-seek-nested", [], e(CS, "    fragment_position_ += position;\n    assert(fragment_position_ <= current_block_->size);\n    return;\n  }\n  for (int i = 0; i < relative_fragment_index; ++i) {\n    current_block_ = current_block_->next.get();\n  }\n  fragment_index_ += relative_fragment_index;\n  fragment_position_ = position;\n", "    fragment_position_ += position;\n  } else {\n    fragment_index_ += relative_fragment_index;\n    while (relative_fragment_index-- > 0) {\n      current_block_ = current_block_->next.get();\n    }\n    fragment_position_ = position;\n  }\n")),
 ("Q", "rr-ctor-if", [], e(RR, "  num_bytes_ = static_cast<int>(header_->size());\n  num_fragments_ = 1;\n  if (num_dropped_spans == 0) {\n    return;\n  }\n  auto metrics = new EmbeddedMetricsMessage{};\n  metrics_.reset(metrics);\n  metrics->set_num_dropped_spans(num_dropped_spans);\n  metrics_fragment_ = metrics->MakeFragment();\n  num_bytes_ += metrics_fragment_.second;\n  ++num_fragments_;\n", "  num_fragments_ = 1;\n  num_bytes_ = static_cast<int>(header_->size());\n  if (num_dropped_spans != 0) {\n    std::unique_ptr<EmbeddedMetricsMessage> metrics{\n        new EmbeddedMetricsMessage{}};\n    metrics->set_num_dropped_spans(num_dropped_spans);\n    metrics_fragment_ = metrics->MakeFragment();\n    metrics_ = std::move(metrics);\n    num_fragments_ = 2;\n    num_bytes_ += metrics_fragment_.second;\n  }\n")),
 ("Q", "rr-addspan-local", [], e(RR, "  span->ForEachFragment([&](void* /*data*/, int length) {\n    num_bytes_ += static_cast<size_t>(length);\n    return true;\n  });\n", "  int span_bytes = 0;\n  span->ForEachFragment([&span_bytes](void* /*data*/, int length) {\n    span_bytes += length;\n    return true;\n  });\n  num_bytes_ += span_bytes;\n")),
 ("Q", "so-exchange", [], e(SO, "  file_descriptor_ = other.file_descriptor_;\n  other.file_descriptor_ = InvalidSocket;\n}\n", "  file_descriptor_ = InvalidSocket;\n  std::swap(file_descriptor_, other.file_descriptor_);\n}\n", "#include <stdexcept>\n", "#include <stdexcept>\n#include <utility>\n")),
 ("Q", "so-free-resets", [], e(SO, "    CloseSocket(file_descriptor_);\n", "    CloseSocket(file_descriptor_);\n    file_descriptor_ = InvalidSocket;\n")),
 ("Q", "so-connect-length", [], e(SO, "  int rcode;\n  switch (ip_address.family()) {\n    case AF_INET:\n      rcode =\n          socket.Connect(ip_address.addr(), sizeof(ip_address.ipv4_address()));\n      break;\n    case AF_INET6:\n      rcode =\n          socket.Connect(ip_address.addr(), sizeof(ip_address.ipv6_address()));\n      break;\n    default:\n      throw std::runtime_error{\"Unknown socket family.\"};\n  }\n", "  size_t length = 0;\n  if (ip_address.family() == AF_INET) {\n    length = sizeof(sockaddr_in);\n  } else if (ip_address.family() == AF_INET6) {\n    length = sizeof(sockaddr_in6);\n  } else {\n    throw std::runtime_error{\"Unknown socket family.\"};\n  }\n  const int rcode = socket.Connect(ip_address.addr(), length);\n")),
 ("Q", "so-connect-in-progress", [], e(SO, "  auto error_code = GetLastErrorCode();\n  if (!IsInProgressErrorCode(error_code) && !IsBlockingErrorCode(error_code)) {\n", "  const auto error_code = GetLastErrorCode();\n  const bool pending =\n      IsInProgressErrorCode(error_code) || IsBlockingErrorCode(error_code);\n  if (!pending) {\n")),
 ("Q", "pn-flags", [], e(PN, "  return ::fcntl(socket, F_SETFL, ::fcntl(socket, F_GETFL, 0) | O_NONBLOCK);", "  const int flags = ::fcntl(socket, F_GETFL, 0);\n  if (flags == -1) {\n    return -1;\n  }\n  return ::fcntl(socket, F_SETFL, flags | O_NONBLOCK);")),
 ("Q", "ip-port-else", [], e(IP, "    reinterpret_cast<sockaddr_in&>(data_).sin_port = htons(port);\n    return;\n  }\n  if (family() == AF_INET6) {\n    reinterpret_cast<sockaddr_in6&>(data_).sin6_port = htons(port);\n    return;\n  }\n", "    reinterpret_cast<sockaddr_in&>(data_).sin_port = htons(port);\n  } else if (family() == AF_INET6) {\n    reinterpret_cast<sockaddr_in6&>(data_).sin6_port = htons(port);\n  }\n")),
 ("Q", "ip-parse-nested", [], e(IP, "  if (rcode == 1) {\n    ipv6_addr.sin6_family = AF_INET6;\n    return;\n  }\n\n  std::ostringstream oss;\n  oss << \"failed to construct IpAddress from \" << s;\n  throw std::runtime_error{oss.str()};", "  if (rcode != 1) {\n    std::ostringstream oss;\n    oss << \"failed to construct IpAddress from \" << s;\n    throw std::runtime_error{oss.str()};\n  }\n  ipv6_addr.sin6_family = AF_INET6;")),
 ("Q", "ip-memcpy", [], e(IP, "    reinterpret_cast<sockaddr_in6&>(data_) =\n        reinterpret_cast<const sockaddr_in6&>(addr);", "    std::memcpy(&data_, &addr, sizeof(sockaddr_in6));")),
 ("Q", "b64-groups", [], e(B64, "  for (uint64_t i = 0; i < length; ++i) {\n    encodeBase(input[i], pos++, next_c, ret);\n  }\n\n  encodeLast(pos, next_c, ret);\n\n  return ret;", "  while (pos < length) {\n    encodeBase(static_cast<uint8_t>(input[pos]), pos, next_c, ret);\n    ++pos;\n  }\n  encodeLast(length, next_c, ret);\n  return ret;")),
 ("Q", "b64-encode-rewritten", [], e(B64, "  uint64_t pos = 0;\n  uint8_t next_c = 0;\n\n  for (uint64_t i = 0; i < length; ++i) {\n    encodeBase(input[i], pos++, next_c, ret);\n  }\n\n  encodeLast(pos, next_c, ret);\n\n  return ret;", "  uint64_t pos = 0;\n  for (; pos + 3 <= length; pos += 3) {\n    const uint32_t x = static_cast<uint32_t>(static_cast<uint8_t>(input[pos])) << 16 |\n                       static_cast<uint32_t>(static_cast<uint8_t>(input[pos + 1])) << 8 |\n                       static_cast<uint8_t>(input[pos + 2]);\n    ret.push_back(CHAR_TABLE[x >> 18]);\n    ret.push_back(CHAR_TABLE[x >> 12 & 63]);\n    ret.push_back(CHAR_TABLE[x >> 6 & 63]);\n    ret.push_back(CHAR_TABLE[x & 63]);\n  }\n  uint8_t next_c = 0;\n  for (; pos < length; ++pos) {\n    encodeBase(input[pos], pos, next_c, ret);\n  }\n  encodeLast(pos, next_c, ret);\n  return ret;")),
 ("Q", "b64-decode-helper", [], e(B64, "    const unsigned char a = REVERSE_LOOKUP_TABLE[static_cast<uint8_t>(input[cur_read])];\n    const unsigned char b = REVERSE_LOOKUP_TABLE[static_cast<uint8_t>(input[cur_read + 1])];\n    if (a == 64 || b == 64) {\n", "    const auto lookup = [input](uint64_t index) -> unsigned char {\n      return REVERSE_LOOKUP_TABLE[static_cast<uint8_t>(input[index])];\n    };\n    const unsigned char a = lookup(cur_read);\n    const unsigned char b = lookup(cur_read + 1);\n    if (a > 63 || b > 63) {\n")),
 ("Q", "b64-decode-for", [], e(B64, "  while (bytes_left > 0) {\n", "  for (; bytes_left != 0; cur_read += 4, bytes_left -= 4) {\n", "    result.push_back(c << 6 | d);\n\n    cur_read += 4;\n    bytes_left -= 4;\n", "    result.push_back(c << 6 | d);\n")),
 ("Q", "ut-functions", [], e(UT, "  auto less_than = [](const char* lhs, const char* rhs) {\n    return StrCaseCmp(lhs, rhs) < 0;\n  };\n", "  struct LessThan {\n    bool operator()(const char* lhs, const char* rhs) const {\n      return StrCaseCmp(rhs, lhs) > 0;\n    }\n  };\n  LessThan less_than;\n")),
 ("Q", "ut-transform", [], e(UT, "  for (auto& endpoint : endpoints) {\n    hosts.emplace_back(endpoint.first.c_str());\n  }\n", "  std::transform(endpoints.begin(), endpoints.end(), std::back_inserter(hosts),\n                 [](const std::pair<std::string, uint16_t>& endpoint) {\n                   return endpoint.first.c_str();\n                 });\n", "#include <algorithm>\n", "#include <algorithm>\n#include <iterator>\n")),
 ("Q", "pu-string", [], e(PU, "  std::unique_ptr<char[]> exe_path{new char[path_max]};\n  ssize_t size = ::readlink(\"/proc/self/exe\", exe_path.get(), path_max);", "  std::string exe_path(path_max, '\\0');\n  ssize_t size = ::readlink(\"/proc/self/exe\", &exe_path[0], exe_path.size());", "  std::string path(exe_path.get(), size);", "  std::string path(exe_path.data(), size);")),
 ("Q", "fm-find-not-less", [], e(FM, "    auto iter = this->lower_bound(key);\n    if (iter != data_.end() && iter->first == key) {\n      return iter;\n    }\n    return data_.end();", "    auto iter = this->lower_bound(key);\n    if (iter == data_.end() || !(iter->first == key)) {\n      return data_.end();\n    }\n    return iter;")),
 ("Q", "rt-shuffle", [], e(RT, "  auto n_minus_1 = static_cast<int>(indexes_.size()) - 1;\n  for (int i = 0; i < n_minus_1; ++i) {\n    std::uniform_int_distribution<int> distribution{i, n_minus_1};\n    std::swap(indexes_[i], indexes_[distribution(GetRandomNumberGenerator())]);\n    if (!callback(indexes_[i])) {\n      return false;\n    }\n  }\n  return callback(indexes_.back());", "  std::shuffle(indexes_.begin(), indexes_.end(), GetRandomNumberGenerator());\n  for (int index : indexes_) {\n    if (!callback(index)) {\n      return false;\n    }\n  }\n  return true;", "#include <numeric>\n", "#include <algorithm>\n#include <numeric>\n")),
 ("Q", "sp-atomic-bool", [], e(SP, "    while (locked_.test_and_set(std::memory_order_acquire)) {", "    while (locked_.exchange(true, std::memory_order_acquire)) {", "locked_.clear(std::memory_order_release);", "locked_.store(false, std::memory_order_release);", "  std::atomic_flag locked_ = ATOMIC_FLAG_INIT;", "  std::atomic<bool> locked_{false};")),
 ("Q", "dc-while", [], e(DC, "    if (x >= 0x80) {\n      DO_ITERATION;\n    }\n", "    while (x >= 0x80) {\n      DO_ITERATION;\n    }\n")),
 ("Q", "se-length-sum", [], e(SE, "inline size_t ComputeLengthDelimitedSerializationSize(size_t length) noexcept {\n  return StaticKeySerializationSize<FieldNumber,\n                                    WireType::LengthDelimited>::value +\n         google::protobuf::io::CodedOutputStream::VarintSize64(length) + length;", "inline size_t ComputeLengthDelimitedSerializationSize(size_t length) noexcept {\n  return ComputeLengthDelimitedHeaderSerializationSize<FieldNumber>(length) +\n         length;")),
 ("Q", "al-function", [], e(AL, "std::shared_ptr<const AresLibraryHandle> AresLibraryHandle::Instance = [] {\n  try {\n    return std::shared_ptr<const AresLibraryHandle>{new AresLibraryHandle{}};\n  } catch", "std::shared_ptr<const AresLibraryHandle> AresLibraryHandle::Instance = []()\n    -> std::shared_ptr<const AresLibraryHandle> {\n  try {\n    std::unique_ptr<AresLibraryHandle> handle{new AresLibraryHandle{}};\n    return std::shared_ptr<const AresLibraryHandle>{std::move(handle)};\n  } catch", "    return std::shared_ptr<const AresLibraryHandle>{nullptr};", "    return nullptr;")),
 ("Q", "im-locals", [], e(IM, "  auto non_const_data = const_cast<char*>(data);\n  setg(non_const_data, non_const_data, non_const_data + size);", "  auto first = const_cast<char*>(data);\n  auto last = first + size;\n  setg(first, first, last);")),
 ("Q", "vw-accumulate", [], e(VW, "  int num_fragments = 0;\n  for (auto fragment_input_stream : fragment_input_streams) {\n    num_fragments += fragment_input_stream->num_fragments();\n  }\n", "  const int num_fragments = std::accumulate(\n      fragment_input_streams.begin(), fragment_input_streams.end(), 0,\n      [](int sum, const FragmentInputStream* stream) {\n        return sum + stream->num_fragments();\n      });\n", "#include <algorithm>\n", "#include <algorithm>\n#include <numeric>\n")),
 ("Q", "vw-index", [], e(VW, "    *fragment_iter++ = MakeIoVec(data, static_cast<size_t>(size));\n    batch_num_bytes += size;\n    if (fragment_iter != fragment_last) {\n      return true;\n    }\n    do_write();\n", "    batch_num_bytes += size;\n    *fragment_iter = MakeIoVec(data, static_cast<size_t>(size));\n    ++fragment_iter;\n    const bool full = fragment_iter == fragment_last;\n    if (!full) {\n      return true;\n    }\n    do_write();\n")),
 ("Q", "rn-seed-helper", [], e(RN, "    std::random_device random_device;\n    std::seed_seq seed_seq{random_device(), random_device(), random_device(),\n                           random_device()};\n    engine_.seed(seed_seq);\n", "    std::random_device device;\n    const auto a = device();\n    const auto b = device();\n    const auto c = device();\n    const auto d = device();\n    std::seed_seq sequence{a, b, c, d};\n    engine_.seed(sequence);\n")),
 ("Q", "ts-duration", [], e(TS, "  auto time_since_epoch = std::chrono::nanoseconds{\n      ComputeNanosecondsSinceEpoch(steady_timestamp) + timestamp_delta};\n", "  const int64_t nanoseconds =\n      timestamp_delta + ComputeNanosecondsSinceEpoch(steady_timestamp);\n  std::chrono::nanoseconds time_since_epoch{nanoseconds};\n")),
 ("Q", "bc-copyout-local", [], e(BC, "  if (length < this->num_bytes()) {\n    std::terminate();\n  }\n", "  const size_t needed = this->num_bytes();\n  if (needed > length) {\n    std::terminate();\n  }\n")),
]
