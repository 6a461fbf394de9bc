A="src/common/fragment_array_input_stream.cpp"; C="src/common/chained_stream.cpp"; L="src/common/composable_fragment_input_stream.cpp"; Q="src/recorder/serialization/report_request.cpp"; B="src/common/buffer_chain.cpp"
M=[
("V","array-count",[(A,"return static_cast<int>(fragments_.size()) - fragment_index_;","return static_cast<int>(fragments_.size());")]),
("V","array-first-size",[(A,"current_fragment.second - position_);","current_fragment.second);")]),
("V","array-loop",[(A,"for (int i = fragment_index_ + 1;","for (int i = fragment_index_ + (position_ > 0 ? 1 : 2);")]),
("V","array-ignore",[(A,"    if (!callback(fragments_[i].first, fragments_[i].second)) {\n      return false;\n    }","    callback(fragments_[i].first, fragments_[i].second);")]),
("V","array-assign",[(A,"  fragment_index_ = 0;\n  position_ = 0;\n  return *this;","  fragment_index_ = 0;\n  return *this;")]),
("V","chain-count",[(C,"return num_blocks_ - fragment_index_;","return num_blocks_;")]),
("V","chain-each-size",[(C,"                block_size - fragment_position_)) {","                block_size)) {")]),
("V","chain-empty",[(C,"  if (num_bytes_written_ == 0) {\n    return true;\n  }\n\n  auto block","  auto block")]),
("V","chain-data",[(C,"                                   fragment_position_),","                                   0 * fragment_position_),")]),
("V","list-last",[(L,"  while (stream != nullptr) {\n    result","  while (stream != nullptr && (stream->next_ != nullptr || result == 0)) {\n    result")]),
("V","list-each",[(L,"    if (!stream->SegmentForEachFragment(callback)) {\n      return false;\n    }","    stream->SegmentForEachFragment(callback);")]),
("V","append-last",[(L,"  last_ = stream.get();\n","")]),
("V","append-null",[(L,"  prev_last->Append(std::move(stream));","  if (prev_last->next_ == nullptr) prev_last->next_ = std::move(stream);\n  last_ = this;")]),
("V","req-nf",[(Q,"  num_fragments_ += span->num_fragments();\n","  num_fragments_ = span->num_fragments() + 1;\n")]),
("V","req-metrics-nf",[(Q,"  ++num_fragments_;\n}","}")]),
("V","req-metrics-nb",[(Q,"  num_bytes_ += metrics_fragment_.second;\n","")]),
("V","req-order",[(Q,"  metrics->set_num_dropped_spans(num_dropped_spans);\n  metrics_fragment_ = metrics->MakeFragment();","  metrics_fragment_ = metrics->MakeFragment();\n  metrics->set_num_dropped_spans(num_dropped_spans);")]),
("V","req-replace",[(Q,"  if (spans_ == nullptr) {\n    spans_ = std::move(span);\n    return;\n  }","  if (spans_ == nullptr || num_spans_ == 2) {\n    spans_ = std::move(span);\n    return;\n  }")]),
("V","req-late-count",[(Q,"  num_fragments_ += span->num_fragments();\n",""),(Q,"  spans_->Append(std::move(span));","  spans_->Append(std::move(span));\n  num_fragments_ = 1 + spans_->num_fragments();")]),
("V","req-each-stop",[(Q,"    if (!callback(context, metrics_fragment_.first,\n                  static_cast<size_t>(metrics_fragment_.second))) {\n      return false;\n    }","    callback(context, metrics_fragment_.first,\n                  static_cast<size_t>(metrics_fragment_.second));")]),
("V","req-each-metrics",[(Q,"  if (metrics_ != nullptr) {\n    if (!callback","  if (metrics_ != nullptr && spans_ != nullptr) {\n    if (!callback")]),
("V","req-each-cb",[(Q,"    return callback(context, data, static_cast<size_t>(length));","    callback(context, data, static_cast<size_t>(length));\n    return true;")]),
("V","copy-noadvance",[(B,"    *out = std::copy_n(static_cast<const char*>(fragment_data), fragment_size,\n                       *out);","    std::copy_n(static_cast<const char*>(fragment_data), fragment_size,\n                       *out);\n    *out += fragment_size ? fragment_size : 1;")]),
("V","copy-nobound",[(B,"  if (length < this->num_bytes()) {\n    std::terminate();\n  }\n","")]),
("V","copy-bound-off",[(B,"length < this->num_bytes()","length + 1 < this->num_bytes()")]),
("Q","copy-memcpy",[(B,"    *out = std::copy_n(static_cast<const char*>(fragment_data), fragment_size,\n                       *out);","    if (fragment_size > 0) {\n    __builtin_memcpy(*out, fragment_data, fragment_size);\n    *out += fragment_size; }")]),
("Q","copy-loop",[(B,"    *out = std::copy_n(static_cast<const char*>(fragment_data), fragment_size,\n                       *out);","    auto p = *out; auto s = static_cast<const char*>(fragment_data);\n    for (size_t i = 0; i < fragment_size; ++i) p[i] = s[i];\n    *out = p + fragment_size;")]),
("Q","req-helper",[(Q,"  num_fragments_ += span->num_fragments();\n  span->ForEachFragment([&](void* /*data*/, int length) {\n    num_bytes_ += static_cast<size_t>(length);\n    return true;\n  });","  int total = 0;\n  span->ForEachFragment([&total](void* /*data*/, int length) {\n    total = total + length;\n    return true;\n  });\n  num_bytes_ += total;\n  num_fragments_ = num_fragments_ + span->num_fragments();")]),
("Q","array-rewrite",[(A,"""  for (int i = fragment_index_ + 1; i < static_cast<int>(fragments_.size());
       ++i) {
    if (!callback(fragments_[i].first, fragments_[i].second)) {
      return false;
    }
  }
  return true;""","""  const auto last = static_cast<int>(fragments_.size());
  auto i = fragment_index_;
  while (++i < last) {
    const auto& fragment = fragments_[i];
    const bool go_on = callback(fragment.first, fragment.second);
    if (!go_on) return false;
  }
  return true;""")]),
("Q","chain-rewrite",[(C,"""  block = block->next.get();
  while (block != nullptr) {
    if (!callback(static_cast<void*>(const_cast<char*>(block->data.data())),
                  block->size)) {
      return false;
    }
    block = block->next.get();
  }
  return true;""","""  for (auto next = block->next.get(); next; next = next->next.get()) {
    auto data = static_cast<void*>(const_cast<char*>(next->data.data()));
    if (!callback(data, next->size)) return false;
  }
  return true;""")]),
]
M += [
("V","fa-ignores-stop",[("src/common/fragment_array_input_stream.cpp","    if (!callback(fragments_[i].first, fragments_[i].second)) {\n      return false;\n    }","    callback(fragments_[i].first, fragments_[i].second);")]),
("V","fa-first-ignored",[("src/common/fragment_array_input_stream.cpp","  if (!result) {\n    return false;\n  }\n","")]),
("V","cs-ignores-stop",[("src/common/chained_stream.cpp","    if (!callback(static_cast<void*>(const_cast<char*>(block->data.data())),\n                  block->size)) {\n      return false;\n    }","    callback(static_cast<void*>(const_cast<char*>(block->data.data())),\n                  block->size);")]),
]
