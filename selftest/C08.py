C="src/common/chained_stream.cpp"
M=[
("V","next-pos",[(C,"  *data = static_cast<void*>(current_block_->data.data());\n  ++num_blocks_;","  *data = static_cast<void*>(current_block_->data.data());")]),
("V","next-reuse",[(C,"if (current_block_position_ < BlockSize) {","if (current_block_position_ + 1 < BlockSize) {")]),
("V","next-bytes",[(C,"  *size = BlockSize;\n  num_bytes_written_ += *size;","  *size = BlockSize;")]),
("V","next-size",[(C,"    current_block_position_ = BlockSize;\n    current_block_->size = BlockSize;\n    return true;","    current_block_position_ = BlockSize;\n    return true;")]),
("Q","next-pos2",[(C,"  current_block_->size = BlockSize;\n  current_block_position_ = BlockSize;\n  *size","  current_block_->size = BlockSize;\n  *size")]),
("V","backup-size",[(C,"  current_block_->size -= count;\n","")]),
("V","backup-pos",[(C,"  current_block_position_ -= count;\n","")]),
("V","backup-bytes",[(C,"  num_bytes_written_ -= count;\n","")]),
("V","close-current",[(C,"  current_block_ = &head_;","  if (num_blocks_ < 2) current_block_ = &head_;")]),
("Q","next-rewrite",[(C,"  if (current_block_position_ < BlockSize) {\n    *size = BlockSize - current_block_position_;","  if (BlockSize > current_block_position_) {\n    const int room = BlockSize - current_block_position_;\n    *size = room;")]),
("Q","backup-local",[(C,"  num_bytes_written_ -= count;\n  current_block_position_ -= count;\n  current_block_->size -= count;","  auto block = current_block_;\n  block->size = block->size - count;\n  num_bytes_written_ = num_bytes_written_ - count;\n  current_block_position_ -= count;")]),
]
