AR = "src/recorder/auto_recorder.cpp"; SR = "src/recorder/stream_recorder/stream_recorder.cpp"; SI = "src/recorder/stream_recorder/stream_recorder_impl.cpp"; CV = "src/common/condition_variable_wrapper.h"; SRH = "src/recorder/stream_recorder/stream_recorder.h"
M = [
 ("V", "no-predicate", [(CV, "return condition_variable_.wait_for(lock, duration, predicate);", "return condition_variable_.wait_for(lock, duration) == std::cv_status::no_timeout;")]),
 ("V", "wait-once", [(SR, "  shutdown_condition_variable_.wait_for(\n      lock, timeout, [this] { return exit_ || !last_is_active_; });\n", "  if (last_is_active_) {\n    shutdown_condition_variable_.wait_for(lock, timeout);\n  }\n")]),
 ("V", "unlocked-write", [(SR, "    {\n      std::lock_guard<std::mutex> lock_guard{shutdown_mutex_};\n      last_is_active_ = false;\n    }\n", "    last_is_active_ = false;\n")]),
 ("V", "wrong-mutex", [(SR, "      std::lock_guard<std::mutex> lock_guard{flush_mutex_};\n      num_spans_consumed_", "      std::lock_guard<std::mutex> lock_guard{shutdown_mutex_};\n      num_spans_consumed_")]),
 ("V", "no-notify", [(SR, "    flush_condition_variable_.notify_all();\n  }\n\n  if (shutdown", "  }\n\n  if (shutdown")]),
 ("V", "notify-one", [(SR, "    flush_condition_variable_.notify_all();\n  }\n\n  if (shutdown", "    flush_condition_variable_.notify_one();\n  }\n\n  if (shutdown")]),
 ("V", "notify-if-pending", [(SR, "    flush_condition_variable_.notify_all();\n  }\n\n  if (shutdown", "    if (pending_flush_counter_ > 0) {\n      flush_condition_variable_.notify_all();\n    }\n  }\n\n  if (shutdown")]),
 ("V", "notify-wrong-cv", [(SR, "  flush_condition_variable_.notify_all();\n  shutdown_condition_variable_.notify_all();", "  flush_condition_variable_.notify_all();")]),
 ("V", "exit-without-shutdown-lock", [(SR, "    std::lock_guard<std::mutex> shutdown_lock_guard{shutdown_mutex_};\n", "")]),
 ("V", "notify-before-seqno", [(AR, "    ++flushed_seqno_;\n    write_cond_->NotifyAll();\n", "    write_cond_->NotifyAll();\n    ++flushed_seqno_;\n")]),
 ("V", "notify-on-success", [(AR, "    write_cond_->NotifyAll();\n    inflight_.Clear();", "    if (success) {\n      write_cond_->NotifyAll();\n    }\n    inflight_.Clear();")]),
 ("V", "threshold-off-by-one", [(AR, "  if (builder_.num_pending_spans() >= max_buffered_spans_snapshot_) {\n    write_cond_", "  if (builder_.num_pending_spans() > max_buffered_spans_snapshot_) {\n    write_cond_")]),
 ("V", "exit-silent", [(AR, "  write_exit_ = true;\n  write_cond_->NotifyAll();", "  write_exit_ = true;")]),
 ("V", "join-first", [(AR, "  MakeWriterExit();\n  writer_.join();", "  writer_.join();\n  MakeWriterExit();")]),
 ("V", "join-maybe-told", [(SI, "  exit_ = true;\n  thread_.join();", "  if (stream_recorder_.recorder_options().throw_away_spans) {\n    exit_ = true;\n  }\n  thread_.join();")]),
 ("V", "no-loopbreak", [(SI, "      return event_base_.LoopBreak();", "      return;")]),
 ("V", "flush-request-ignored", [(SI, "if (pending_flush_count > 0 ||\n      stream", "if (pending_flush_count > 1 ||\n      stream")]),
 ("V", "lost-request", [(SRH, "pending_flush_counter_.exchange(0)", "pending_flush_counter_.load()")]),
 ("V", "shutdown-lost", [(SR, "  if (shutdown_counter_.exchange(0) > 0) {", "  if (shutdown_counter_.exchange(0) > 1) {")]),
 ("V", "poll-skipped", [(SI, "  if (pending_flush_count > 0 ||\n      stream_recorder_.span_buffer().size() > early_flush_marker_) {\n    Flush();\n  }\n", "  if (pending_flush_count > 0 ||\n      stream_recorder_.span_buffer().size() > early_flush_marker_) {\n    return Flush();\n  }\n")]),
 ("Q", "loop", [(SR, "  shutdown_condition_variable_.wait_for(\n      lock, timeout, [this] { return exit_ || !last_is_active_; });\n", "  auto deadline = std::chrono::steady_clock::now() + timeout;\n  while (!exit_ && last_is_active_) {\n    if (shutdown_condition_variable_.wait_until(lock, deadline) ==\n        std::cv_status::timeout) {\n      break;\n    }\n  }\n")]),
 ("Q", "notify-locked", [(SR, "      num_spans_consumed_ = num_spans_consumed;\n    }\n    flush_condition_variable_.notify_all();", "      num_spans_consumed_ = num_spans_consumed;\n      flush_condition_variable_.notify_all();\n    }")]),
 ("Q", "always-notify", [(AR, "  if (builder_.num_pending_spans() >= max_buffered_spans_snapshot_) {\n    write_cond_->NotifyAll();\n  }", "  write_cond_->NotifyAll();")]),
 ("Q", "negated", [(AR, "  if (builder_.num_pending_spans() >= max_buffered_spans_snapshot_) {\n    write_cond_->NotifyAll();\n  }", "  if (builder_.num_pending_spans() < max_buffered_spans_snapshot_) {\n    return;\n  }\n  write_cond_->NotifyAll();")]),
 ("Q", "lambda-demorgan", [(SR, "return exit_ || !last_is_active_; });", "return !(last_is_active_ && !exit_); });")]),
 ("Q", "poll-split", [(SI, "  if (pending_flush_count > 0 ||\n      stream_recorder_.span_buffer().size() > early_flush_marker_) {\n    Flush();\n  }\n", "  bool flush = pending_flush_count > 0;\n  if (!flush) {\n    flush = stream_recorder_.span_buffer().size() > early_flush_marker_;\n  }\n  if (flush) {\n    Flush();\n  }\n")]),
]
