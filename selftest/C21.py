S = "src/tracer/span.cpp"; L = "src/tracer/legacy/legacy_span.cpp"; H = "src/tracer/span.h"
M = [
 ("V", "load-then-store", [(S, "  if (is_finished_.exchange(true)) {\n    return;\n  }\n", "  if (is_finished_) {\n    return;\n  }\n  is_finished_ = true;\n")]),
 ("V", "exchange-ignored", [(L, "  if (is_finished_.exchange(true)) {\n    return;\n  }\n", "  is_finished_.exchange(true);\n")]),
 ("V", "exchange-false", [(L, "is_finished_.exchange(true)", "is_finished_.exchange(false)")]),
 ("V", "tag-after-finish", [(S, "  SpinLockGuard lock_guard{mutex_};\n  if (is_finished_) {\n    return;\n  }\n  WriteTag(", "  SpinLockGuard lock_guard{mutex_};\n  WriteTag(")]),
 ("V", "checked-before-lock", [(S, "  SpinLockGuard lock_guard{mutex_};\n  if (is_finished_) {\n    return;\n  }\n  WriteTag(", "  if (is_finished_) {\n    return;\n  }\n  SpinLockGuard lock_guard{mutex_};\n  WriteTag(")]),
 ("V", "unlocked-finish", [(S, "  SpinLockGuard lock_guard{mutex_};\n  FinishImpl(options);", "  FinishImpl(options);")]),
 ("V", "unsampled", [(S, "  if (!IsTraceFlagSet<SampledFlagMask>(trace_flags_)) {\n    return;\n  }\n", "")]),
 ("V", "sampled-inverted", [(L, "if (!IsTraceFlagSet<SampledFlagMask>(trace_flags_))", "if (IsTraceFlagSet<SampledFlagMask>(trace_flags_))")]),
 ("V", "sampled-other-bit", [(S, "if (!IsTraceFlagSet<SampledFlagMask>(trace_flags_))", "if (!IsTraceFlagSet<2>(trace_flags_))")]),
 ("V", "no-destructor-finish", [(S, "  opentracing::FinishSpanOptions options;\n  FinishImpl(options);", "  opentracing::FinishSpanOptions options;")]),
 ("V", "destructor-inverted", [(L, "  if (!is_finished_) {\n    Finish();", "  if (is_finished_) {\n    Finish();")]),
 ("V", "claim-then-unsampled-logs", [(S, "  // Set logs\n", "  if (options.log_records.empty() && duration.count() == 0) {\n    return;\n  }\n  // Set logs\n")]),
 ("V", "write-after", [(S, "  tracer_->recorder().RecordSpan(header_fragment_, std::move(chained_stream_));\n", "  tracer_->recorder().RecordSpan(header_fragment_, std::move(chained_stream_));\n  coded_stream_.Trim();\n")]),
 ("V", "twice", [(L, "  recorder_.RecordSpan(span_);\n", "  recorder_.RecordSpan(span_);\n  if (span_.logs_size() > 10) {\n    recorder_.RecordSpan(span_);\n  }\n")]),
 ("Q", "compare-exchange", [(S, "  if (is_finished_.exchange(true)) {\n    return;\n  }\n", "  bool expected = false;\n  if (!is_finished_.compare_exchange_strong(expected, true)) {\n    return;\n  }\n")]),
 ("Q", "helper", [(L, "//------------------------------------------------------------------------------\n// Destructor\n", "static bool Claim(std::atomic<bool>& flag) noexcept { return !flag.exchange(true); }\n\n//------------------------------------------------------------------------------\n// Destructor\n"), (L, "  if (is_finished_.exchange(true)) {\n    return;\n  }\n", "  if (!Claim(is_finished_)) {\n    return;\n  }\n")]),
 ("Q", "nested", [(S, "  if (is_finished_) {\n    return;\n  }\n  WriteOperationName(coded_stream_, name);\n", "  const bool finished = is_finished_.load();\n  if (!finished) {\n    WriteOperationName(coded_stream_, name);\n  }\n")]),
 ("Q", "local-sampled", [(L, "  if (!IsTraceFlagSet<SampledFlagMask>(trace_flags_)) {\n    return;\n  }\n", "  const auto flags = trace_flags_;\n  const bool sampled = IsTraceFlagSet<SampledFlagMask>(flags);\n  if (!sampled) {\n    return;\n  }\n")]),
 ("Q", "always-finish", [(L, "  if (!is_finished_) {\n    Finish();\n  }\n", "  Finish();\n")]),
 ("Q", "swap-checks", [(S, "  auto timestamp = SystemClock::now();\n  SpinLockGuard lock_guard{mutex_};\n  if (is_finished_) {\n    return;\n  }\n", "  SpinLockGuard lock_guard{mutex_};\n  if (is_finished_) {\n    return;\n  }\n  auto timestamp = SystemClock::now();\n")]),
]
