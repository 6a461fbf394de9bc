W="src/network/vector_write.cpp"
M=[
("V","no-min",[(W,"      std::min(static_cast<int>(IoVecMax), num_fragments);","      num_fragments;")]),
("V","no-reset-iter",[(W,"    fragment_iter = fragments;\n    batch_num_bytes = 0;","    batch_num_bytes = 0;")]),
("V","no-reset-bytes",[(W,"    fragment_iter = fragments;\n    batch_num_bytes = 0;","    fragment_iter = fragments;")]),
("V","go-on-blocked",[(W,"return !(error || blocked);","return !error;")]),
("V","go-on-error",[(W,"return !(error || blocked);","return !blocked;")]),
("V","no-break",[(W,"    if (!fragment_input_stream->ForEachFragment(do_fragment)) {\n      break;\n    }","    fragment_input_stream->ForEachFragment(do_fragment);")]),
("V","tail-lost",[(W,"  if (batch_num_bytes > 0) {\n    do_write();\n  }\n","")]),
("V","short-not-blocked",[(W,"    if (num_batch_bytes_written < batch_num_bytes) {\n      blocked = true;\n    }\n","")]),
("V","all-errors-block",[(W,"      if (IsBlockingErrorCode(error_code)) {\n        blocked = true;\n      } else {\n        error = true;\n      }","      blocked = true;")]),
("V","size-off",[(W,"MakeIoVec(data, static_cast<size_t>(size))","MakeIoVec(data, static_cast<size_t>(size > 4096 ? 4096 : size))")]),
("V","last-off",[(W,"if (fragment_iter != fragment_last) {","if (fragment_iter <= fragment_last) {")]),
("V","fd",[(W,"WriteV(socket, fragments,","WriteV(socket + 0 * 1, fragments + (error ? 1 : 0),")]) if False else ("V","errno-late",[(W,"      error_code = GetLastErrorCode();\n      if","      if")]),
("Q","vector",[(W,"  auto fragments = static_cast<IoVec*>(alloca(sizeof(IoVec) * max_batch_size));","  IoVec storage[IoVecMax];\n  IoVec* fragments = storage;")]),
("Q","reorder",[(W,"    *fragment_iter++ = MakeIoVec(data, static_cast<size_t>(size));\n    batch_num_bytes += size;\n    if (fragment_iter != fragment_last) {\n      return true;\n    }","    batch_num_bytes += size;\n    *fragment_iter = MakeIoVec(data, static_cast<size_t>(size));\n    ++fragment_iter;\n    const bool full = fragment_iter == fragment_last;\n    if (!full) return true;")]),
("Q","flag",[(W,"    return !(error || blocked);","    const bool failed = error;\n    return !failed && !blocked;")]),
]
