SP = "src/tracer/span.cpp"; SPH = "src/tracer/span.h"; AR = "src/recorder/auto_recorder.cpp"; MR = "src/recorder/manual_recorder.cpp"; SR = "src/recorder/stream_recorder/stream_recorder.cpp"; FA = "src/recorder/fork_aware_recorder.cpp"
M = [
 ("V", "sleep-under-spin", [(SP, "uint8_t Span::trace_flags() const noexcept {\n  SpinLockGuard lock_guard{mutex_};\n", "uint8_t Span::trace_flags() const noexcept {\n  SpinLockGuard lock_guard{mutex_};\n  std::this_thread::sleep_for(std::chrono::microseconds{1});\n"), (SP, "#include <tuple>\n", "#include <thread>\n#include <tuple>\n")]),
 ("V", "send-under-lock", [(MR, "  return true;\n} catch", "  {\n    std::lock_guard<std::mutex> again{flush_mutex_};\n    transporter_->OnSpanBufferFull();\n  }\n  return true;\n} catch")]),
 ("V", "observer-under-flush", [(SR, "    {\n      std::lock_guard<std::mutex> lock_guard{flush_mutex_};\n", "    {\n      std::lock_guard<std::mutex> lock_guard{flush_mutex_};\n      metrics_.OnFlush();\n")]),
 ("V", "lock-order", [(SR, "  std::unique_lock<std::mutex> lock{shutdown_mutex_};\n", "  std::unique_lock<std::mutex> lock{shutdown_mutex_};\n  std::lock_guard<std::mutex> flush_lock{flush_mutex_};\n")]),
 ("V", "twice", [(SP, "void Span::FinishWithOptions(\n    const opentracing::FinishSpanOptions& options) noexcept try {\n  SpinLockGuard lock_guard{mutex_};\n", "void Span::FinishWithOptions(\n    const opentracing::FinishSpanOptions& options) noexcept try {\n  SpinLockGuard lock_guard{mutex_};\n  if (!IsTraceFlagSet<SampledFlagMask>(trace_flags())) {\n    return;\n  }\n")]),
 ("V", "leak-on-return", [(SP, "uint8_t Span::trace_flags() const noexcept {\n  SpinLockGuard lock_guard{mutex_};\n  return trace_flags_;\n", "uint8_t Span::trace_flags() const noexcept {\n  mutex_.lock();\n  if (is_finished_) {\n    return 0;\n  }\n  auto result = trace_flags_;\n  mutex_.unlock();\n  return result;\n")]),
 ("V", "leak-on-throw", [(SP, "  SpinLockGuard lock_guard{mutex_};\n  if (is_finished_) {\n    return;\n  }\n  WriteOperationName(coded_stream_, name);\n", "  mutex_.lock();\n  if (!is_finished_) {\n    WriteOperationName(coded_stream_, name);\n  }\n  mutex_.unlock();\n")]),
 ("Q", "unique-lock", [(SP, "uint8_t Span::trace_flags() const noexcept {\n  SpinLockGuard lock_guard{mutex_};\n", "uint8_t Span::trace_flags() const noexcept {\n  std::unique_lock<SpinLockMutex> lock_guard{mutex_};\n"), (SP, "#include <tuple>\n", "#include <mutex>\n#include <tuple>\n")]),
 ("Q", "manual", [(SP, "uint8_t Span::trace_flags() const noexcept {\n  SpinLockGuard lock_guard{mutex_};\n  return trace_flags_;\n", "uint8_t Span::trace_flags() const noexcept {\n  mutex_.lock();\n  auto result = trace_flags_;\n  mutex_.unlock();\n  return result;\n")]),
 ("Q", "finish-helper", [(SP, "  SpinLockGuard lock_guard{mutex_};\n  FinishImpl(options);\n", "  SpinLockGuard lock_guard{mutex_};\n  auto& self = *this;\n  self.FinishImpl(options);\n")]),
 ("Q", "early-unlock", [(AR, "  std::unique_lock<std::mutex> lock{write_mutex_};\n", "  std::unique_lock<std::mutex> lock{write_mutex_};\n  lock.unlock();\n  lock.lock();\n")]),
]
