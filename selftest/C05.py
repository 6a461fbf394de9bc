I="src/common/fragment_input_stream.cpp"; A="src/common/fragment_array_input_stream.cpp"; C="src/common/chained_stream.cpp"; L="src/common/composable_fragment_input_stream.cpp"; W="src/network/vector_write.cpp"
M=[
("V","consume-le",[(I,"if (n < size) {","if (n <= size) {")]),
("V","consume-noclear",[(I,"    fragment_input_stream->Clear();\n","")]),
("V","consume-n-after",[(I,"      ++fragment_index;\n      n -= size;","      n -= size;\n      if (size > 1) ++fragment_index;")]),
("V","consume-idx-static",[(I,"  for (auto fragment_input_stream : fragment_input_streams) {\n    int fragment_index = 0;","  int fragment_index = 0;\n  for (auto fragment_input_stream : fragment_input_streams) {")]),
("V","array-abs",[(A,"    position_ += position;","    position_ = position;")]),
("V","array-rel",[(A,"    position_ = position;\n  }","    position_ += position;\n  }")]),
("V","array-idx",[(A,"fragment_index_ += fragment_index;","fragment_index_ = fragment_index;")]),
("V","array-clear-idx",[(A,"noexcept {\n  fragment_index_ = 0;","noexcept {")]),
("V","chain-abs",[(C,"fragment_position_ += position;","fragment_position_ = position;")]),
("V","chain-idx",[(C,"fragment_index_ += relative_fragment_index;","fragment_index_ = relative_fragment_index;")]),
("V","chain-noidx",[(C,"  fragment_index_ += relative_fragment_index;\n","")]),
("V","chain-steps",[(C,"for (int i = 0; i < relative_fragment_index; ++i) {","for (int i = 1; i < relative_fragment_index; ++i) {")]),
("V","chain-clear-keep",[(C,"  num_blocks_ = 0;\n  num_bytes_written_ = 0;\n  fragment_index_ = 0;","  fragment_index_ = 0;")]),
("V","list-le",[(L,"if (fragment_index < segment_num_fragments) {","if (fragment_index <= segment_num_fragments) {")]),
("V","list-noclear",[(L,"    fragment_index -= segment_num_fragments;\n    stream->SegmentClear();","    fragment_index -= segment_num_fragments;")]),
("V","list-clear-first",[(L,"    auto segment_num_fragments = stream->segment_num_fragments();","    auto segment_num_fragments = stream->segment_num_fragments();\n    if (segment_num_fragments == 1 && position == 0) stream->SegmentClear();")]),
("V","list-nosub",[(L,"    fragment_index -= segment_num_fragments;\n","")]),
("V","write-bytes-lost",[(W,"    num_bytes_written += num_batch_bytes_written;\n    if (num_batch_bytes_written < batch_num_bytes) {\n      blocked = true;","    if (num_batch_bytes_written < batch_num_bytes) {\n      blocked = true;\n    } else {\n      num_bytes_written += num_batch_bytes_written;")]),
("V","write-throw-early",[(W,"  auto result = Consume(fragment_input_streams, num_bytes_written);\n  if (error) {","  if (error) {"),(W,"  return result;","  auto result = Consume(fragment_input_streams, num_bytes_written);\n  return result;")]),
("Q","consume-rewrite",[(I,"""      if (n < size) {
        return false;
      }
      ++fragment_index;
      n -= size;
      return true;""","""      const bool complete = !(size > n);
      if (complete) {
        fragment_index += 1;
        n = n - size;
      }
      return complete;""")]),
("Q","array-rewrite",[(A,"""  if (fragment_index == 0) {
    position_ += position;
  } else {
    fragment_index_ += fragment_index;
    position_ = position;
  }""","""  if (fragment_index != 0) {
    position_ = 0;
    fragment_index_ += fragment_index;
  }
  position_ = position_ + position;""")]),
("Q","chain-while",[(C,"""  for (int i = 0; i < relative_fragment_index; ++i) {
    current_block_ = current_block_->next.get();
  }
  fragment_index_ += relative_fragment_index;""","""  auto block = current_block_;
  int remaining = relative_fragment_index;
  while (remaining > 0) {
    block = block->next.get();
    --remaining;
  }
  current_block_ = block;
  fragment_index_ += relative_fragment_index;""")]),
("Q","list-for",[(L,"""  auto stream = this;
  while (stream != nullptr) {
    auto segment_num_fragments = stream->segment_num_fragments();
    if (fragment_index < segment_num_fragments) {
      return stream->SegmentSeek(fragment_index, position);
    }
    fragment_index -= segment_num_fragments;
    stream->SegmentClear();
    stream = stream->next_.get();
  }""","""  for (auto stream = this; stream != nullptr; stream = stream->next_.get()) {
    const auto n = stream->segment_num_fragments();
    if (n > fragment_index) {
      stream->SegmentSeek(fragment_index, position);
      return;
    }
    stream->SegmentClear();
    fragment_index = fragment_index - n;
  }""")]),
]
