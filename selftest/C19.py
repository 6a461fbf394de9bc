from selftest_names import *
FA_ = "src/recorder/fork_aware_recorder.cpp"; ST = "src/recorder/stream_recorder/stream_recorder.cpp"; MR = "src/recorder/manual_recorder.cpp"; FU = "src/common/platform/fork_unix.cpp"
M = [
 ("V", "swapped-handlers", e(FA_, "AtFork(PrepareForkHandler, ParentForkHandler, ChildForkHandler)", "AtFork(PrepareForkHandler, ChildForkHandler, ParentForkHandler)")),
 ("V", "atfork-swapped", e(FU, "::pthread_atfork(prepare, parent, child)", "::pthread_atfork(parent, prepare, child)")),
 ("V", "register-always", e(FA_, "static bool once", "bool once")),
 ("V", "register-late", e(FA_, "  SetupForkHandlers();\n  std::lock_guard<std::mutex> lock_guard{mutex_};\n", "  std::lock_guard<std::mutex> lock_guard{mutex_};\n")),
 ("V", "wrong-event", e(FA_, "    recorder->OnForkedParent();", "    recorder->OnForkedChild();")),
 ("V", "only-first", e(FA_, "    recorder->OnForkedChild();\n", "    recorder->OnForkedChild();\n    break;\n")),
 ("V", "skip-last", e(FA_, "void ForkAwareRecorder::PrepareForkHandler() noexcept {\n  std::lock_guard<std::mutex> lock_guard{mutex_};\n  for (auto recorder = active_recorders_; recorder != nullptr;", "void ForkAwareRecorder::PrepareForkHandler() noexcept {\n  std::lock_guard<std::mutex> lock_guard{mutex_};\n  for (auto recorder = active_recorders_; recorder != nullptr && recorder->next_recorder_ != nullptr;")),
 ("V", "no-lock", e(FA_, "void ForkAwareRecorder::ChildForkHandler() noexcept {\n  std::lock_guard<std::mutex> lock_guard{mutex_};\n", "void ForkAwareRecorder::ChildForkHandler() noexcept {\n")),
 ("V", "dtor-head", e(FA_, "    active_recorders_ = active_recorders_->next_recorder_;\n    return;", "    active_recorders_ = nullptr;\n    return;")),
 ("V", "dtor-middle", e(FA_, "      recorder->next_recorder_ = this->next_recorder_;", "      recorder->next_recorder_ = nullptr;")),
 ("V", "dtor-kept", e(FA_, "  if (this == active_recorders_) {\n    active_recorders_ = active_recorders_->next_recorder_;\n    return;\n  }\n", "")),
 ("V", "ctor-drops", e(FA_, "  next_recorder_ = active_recorders_;\n", "")),
 ("V", "prepare-kept", e(ST, "  stream_recorder_impl_.reset(nullptr);\n", "")),
 ("V", "prepare-leak", e(ST, "  stream_recorder_impl_.reset(nullptr);\n", "  stream_recorder_impl_.release();\n")),
 ("V", "child-no-loop", e(ST, "  last_is_active_ = true;\n\n  stream_recorder_impl_.reset(new StreamRecorderImpl{*this});", "  last_is_active_ = true;")),
 ("V", "child-no-clear", e(ST, "  span_buffer_.Clear();\n", "")),
 ("V", "child-no-dropped", e(ST, "  metrics_.ConsumeDroppedSpans();\n", "")),
 ("V", "child-late-clear", e(ST, "  span_buffer_.Clear();\n", "", "  stream_recorder_impl_.reset(new StreamRecorderImpl{*this});\n}\n\n//--------------------------------------------------------------------------------------------------\n// Poll", "  stream_recorder_impl_.reset(new StreamRecorderImpl{*this});\n  span_buffer_.Clear();\n}\n\n//--------------------------------------------------------------------------------------------------\n// Poll")),
 ("V", "child-consumed", e(ST, "  num_spans_consumed_ = span_buffer_.production_count();\n", "")),
 ("V", "child-pending", e(ST, "  pending_flush_counter_ = 0;\n", "")),
 ("V", "child-active", e(ST, "  shutdown_counter_ = 0;\n  last_is_active_ = true;\n", "")),
 ("V", "parent-active", e(ST, "    last_is_active_ = true;\n  }\n", "  }\n")),
 ("V", "manual-no-clear", e(MR, "  metrics_.ConsumeDroppedSpans();\n  span_buffer_.Clear();\n", "  metrics_.ConsumeDroppedSpans();\n")),
 ("Q", "while", e(FA_, "  for (auto recorder = active_recorders_; recorder != nullptr;\n       recorder = recorder->next_recorder_) {\n    recorder->PrepareForFork();\n  }", "  auto recorder = active_recorders_;\n  while (recorder != nullptr) {\n    recorder->PrepareForFork();\n    recorder = recorder->next_recorder_;\n  }")),
 ("Q", "dtor-pointer", e(FA_, "  if (this == active_recorders_) {\n    active_recorders_ = active_recorders_->next_recorder_;\n    return;\n  }\n  for (auto recorder = active_recorders_; recorder != nullptr;\n       recorder = recorder->next_recorder_) {\n    if (recorder->next_recorder_ == this) {\n      recorder->next_recorder_ = this->next_recorder_;\n      return;\n    }\n  }\n", "  for (auto link = &active_recorders_; *link != nullptr;\n       link = &(*link)->next_recorder_) {\n    if (*link == this) {\n      *link = next_recorder_;\n      return;\n    }\n  }\n")),
 ("Q", "helper", e(FA_, "void ForkAwareRecorder::ChildForkHandler() noexcept {\n  std::lock_guard<std::mutex> lock_guard{mutex_};\n  for (auto recorder = active_recorders_; recorder != nullptr;\n       recorder = recorder->next_recorder_) {\n    recorder->OnForkedChild();\n  }\n}", "template <class F>\nstatic void ForEach(ForkAwareRecorder* first, ForkAwareRecorder* ForkAwareRecorder::*next, F f) {\n  for (; first != nullptr; first = first->*next) {\n    f(*first);\n  }\n}\nvoid ForkAwareRecorder::ChildForkHandler() noexcept {\n  std::lock_guard<std::mutex> lock_guard{mutex_};\n  ForEach(active_recorders_, &ForkAwareRecorder::next_recorder_,\n          [](ForkAwareRecorder& r) { r.OnForkedChild(); });\n}")),
 ("Q", "reset", e(ST, "  stream_recorder_impl_.reset(nullptr);", "  stream_recorder_impl_ = nullptr;")),
 ("Q", "order", e(ST, "  metrics_.ConsumeDroppedSpans();\n  span_buffer_.Clear();\n  num_spans", "  span_buffer_.Clear();\n  metrics_.ConsumeDroppedSpans();\n  num_spans")),
]
