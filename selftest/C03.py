F="src/recorder/stream_recorder/span_stream.cpp"
M=[
("V","clear-no-sent",[(F,"  metrics_.OnSpansSent(allotment_.size());\n","")]),
("V","clear-consume-order",[(F,"""  metrics_.OnSpansSent(allotment_.size());
  span_buffer_.Consume(allotment_.size());
""","""  metrics_.OnSpansSent(allotment_.size());
  span_buffer_.Clear();
""")]),
("V","seek-lt",[(F,"    if (num_fragments <= fragment_index) {\n      fragment_index -= num_fragments;\n      ++span_count;","    if (num_fragments < fragment_index) {\n      fragment_index -= num_fragments;\n      ++span_count;")]),
("V","seek-lt2",[(F,"          if (num_fragments <= fragment_index) {\n            fragment_index -= num_fragments;\n            span.Reset","          if (num_fragments < fragment_index) {\n            fragment_index -= num_fragments;\n            span.Reset")]),
("V","boundary-pos",[(F,"if (fragment_index == 0 && position == 0)","if (fragment_index == 0)")]),
("V","boundary-none",[(F,"if (fragment_index == 0 && position == 0)","if (false)")]),
("V","sent-count-span",[(F,"metrics_.OnSpansSent(full_span_count)","metrics_.OnSpansSent(span_count)")]),
("V","no-reset",[(F,"            span.Reset();\n","")]),
("V","no-swap",[(F,"          span.Swap(remnant_);\n","")]),
("V","no-seek",[(F,"          span->Seek(fragment_index, position);\n","")]),
("V","seek-zero",[(F,"          span->Seek(fragment_index, position);\n","          span->Seek(0, position);\n")]),
("V","remnant-not-reset",[(F,"noexcept {\n  remnant_.reset();\n  int full","noexcept {\n  int full")]),
("V","stale",[(F,"  metrics_.OnSpansSent(full_span_count);\n  allotment_ = CircularBufferRange<const AtomicUniquePtr<ChainedStream>>{};\n","  metrics_.OnSpansSent(full_span_count);\n")]),
("V","count-skip",[(F,"    return span->ForEachFragment(callback);","    span->ForEachFragment(callback); return true;")]) if False else ("V","count-skip",[(F,"        return span->ForEachFragment(callback);","        span->ForEachFragment(callback); return true;")]),
("V","count-max",[(F,"    result += span->num_fragments();","    result = span->num_fragments();")]),
("V","handoff-get",[(F,"remnant_.release()","remnant_.get()")]),
("Q","loop-rewrite",[(F,"          span->Seek(fragment_index, position);\n          span.Swap(remnant_);\n          return true;","          span.Swap(remnant_);\n          remnant_->Seek(fragment_index, position);\n          return false;")]),
("Q","negated",[(F,"""    if (num_fragments <= fragment_index) {
      fragment_index -= num_fragments;
      ++span_count;
      return true;
    }
    full_span_count = span_count;
    // Check to see if we seek onto a span boundary -- in which case, we don't
    // consume the the next span.
    if (fragment_index == 0 && position == 0) {
      return false;
    }
    ++span_count;
    return false;
""","""    if (fragment_index < num_fragments) {
      full_span_count = span_count;
      if (fragment_index != 0 || position > 0) span_count = span_count + 1;
      return false;
    }
    ++span_count;
    fragment_index = fragment_index - num_fragments;
    return true;
""")]),
("Q","clear-order",[(F,"""  remnant_.reset();
  metrics_.OnSpansSent(allotment_.size());
  span_buffer_.Consume(allotment_.size());
""","""  const auto n = allotment_.size();
  span_buffer_.Consume(n);
  metrics_.OnSpansSent(static_cast<int>(n));
  remnant_ = nullptr;
""")]),
("Q","sent-early",[(F,"  metrics_.OnSpansSent(full_span_count);\n  allotment_","  allotment_"),(F,"  span_buffer_.Consume(\n      span_count,","  metrics_.OnSpansSent(full_span_count);\n  span_buffer_.Consume(\n      span_count,")]),
("Q","helper",[(F,"//--------------------------------------------------------------------------------------------------\n// Seek","static void KeepRemnant(AtomicUniquePtr<ChainedStream>& span, std::unique_ptr<ChainedStream>& remnant, int fragment_index, int position) noexcept {\n  span->Seek(fragment_index, position);\n  span.Swap(remnant);\n}\n// Seek"),(F,"          span->Seek(fragment_index, position);\n          span.Swap(remnant_);","          KeepRemnant(span, remnant_, fragment_index, position);")]),
]
M += [("V","each-ignores-stop",[("src/recorder/stream_recorder/span_stream.cpp","        return span->ForEachFragment(callback);","        span->ForEachFragment(callback);\n        return true;")])]
