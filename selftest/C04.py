H="src/recorder/metrics_tracker.h"; T="src/recorder/metrics_tracker.cpp"; O="src/tracer/counting_metrics_observer.h"
SR="src/recorder/stream_recorder/stream_recorder.cpp"; MR="src/recorder/manual_recorder.cpp"; AR="src/recorder/auto_recorder.cpp"; LR="src/recorder/legacy_manual_recorder.cpp"; CS="src/recorder/stream_recorder/connection_stream.cpp"
M=[
("V","plain-counter",[(H,"std::atomic<int> num_dropped_spans_{0}","int num_dropped_spans_{0}"),(T,"num_dropped_spans_.exchange(0)","[this]{int r=num_dropped_spans_; num_dropped_spans_=0; return r;}()")]),
("V","rmw-split",[(H,"num_dropped_spans_ += num_spans;","num_dropped_spans_ = num_dropped_spans_ + num_spans;")]),
("V","take-split",[(T,"return num_dropped_spans_.exchange(0);","int r = num_dropped_spans_; num_dropped_spans_ -= r + (r > 5); return r;")]),
("Q","take-sub",[(T,"return num_dropped_spans_.exchange(0);","int r = num_dropped_spans_; num_dropped_spans_ -= r; return r;")]),
("Q","take-cas",[(T,"return num_dropped_spans_.exchange(0);","int r = num_dropped_spans_;\n  while (!num_dropped_spans_.compare_exchange_weak(r, 0)) {}\n  return r;")]),
("V","take-cas-bad",[(T,"return num_dropped_spans_.exchange(0);","int r = num_dropped_spans_;\n  num_dropped_spans_.compare_exchange_strong(r, 0);\n  return r;")]),
("V","drop-untold",[(H,"    metrics_observer_.OnSpansDropped(num_spans);\n","    if (num_spans > 1) metrics_observer_.OnSpansDropped(num_spans);\n")]),
("Q","drop-reorder",[(H,"    metrics_observer_.OnSpansDropped(num_spans);\n    num_dropped_spans_ += num_spans;","    num_dropped_spans_.fetch_add(num_spans, std::memory_order_relaxed);\n    metrics_observer_.OnSpansDropped(num_spans);")]),
("Q","drop-zero",[(H,"    metrics_observer_.OnSpansDropped(num_spans);\n","    if (num_spans == 0) return;\n    metrics_observer_.OnSpansDropped(num_spans);\n")]),
("V","put-back-lost",[(T,"  num_dropped_spans_ += num_spans;","  num_dropped_spans_ = num_spans;")]),
("V","sent-one",[(T,"metrics_observer_.OnSpansSent(num_spans);","metrics_observer_.OnSpansSent(1);")]),
("V","obs-wrong",[(O,"    num_spans_dropped += num_spans;","    num_spans_dropped += 1;")]),
("Q","obs-fetch",[(O,"    num_spans_dropped += num_spans;","    num_spans_dropped.fetch_add(num_spans);")]),
("V","sr-uncounted",[(SR,"    metrics_.OnSpansDropped(1);\n    span.reset();","    span.reset();\n    if (static_cast<int>(logger_.level()) <= 1) metrics_.OnSpansDropped(1);")]),
("V","mr-double",[(MR,"  transporter_->OnSpanBufferFull();\n","  metrics_.OnSpansDropped(1);\n  transporter_->OnSpanBufferFull();\n")]),
("V","ar-untold",[(AR,"    dropped_spans_++;\n    options_.metrics_observer->OnSpansDropped(1);","    dropped_spans_++;\n    if (!write_exit_) options_.metrics_observer->OnSpansDropped(1);")]),
("V","ar-overwrite",[(AR,"dropped_spans_ += save_dropped + save_pending;","dropped_spans_ = save_dropped + save_pending;")]),
("V","ar-noreset",[(AR,"    dropped_spans_ = 0;\n    std::swap","    std::swap")]),
("V","ar-forget",[(AR,"dropped_spans_ += save_dropped + save_pending;","dropped_spans_ += save_pending;")]),
("Q","ar-order",[(AR,"    dropped_spans_ = 0;\n    std::swap(builder_.pending(), inflight_);","    std::swap(builder_.pending(), inflight_);\n    dropped_spans_ = 0;")]),
("V","mf-forget",[(MR,"  metrics_.UnconsumeDroppedSpans(report_request->num_dropped_spans());\n","")]),
("V","mf-lost",[(MR,"if (num_spans == 0 && report_request->num_dropped_spans() == 0) {","if (num_spans == 0) {")]),
("V","lr-forget",[(LR,"  dropped_spans_ += saved_dropped_spans_ + saved_pending_spans_;\n  logger_","  dropped_spans_ += saved_pending_spans_;\n  logger_")]),
("V","cs-reset-late",[(CS,"  if (!header_stream_.empty()) {","  if (!header_stream_.empty() && span_remnant_ == nullptr) {")]),
("V","cs-reset-rem",[(CS,"  if (span_remnant_ != nullptr && !span_remnant_->empty()) {","  if (span_remnant_ != nullptr) {")]),
("V","cs-sent-twice",[(CS,"  if (span_remnant_->empty()) {\n    span_stream_.metrics().OnSpansSent(1);\n    span_remnant_ = span_stream_","  if (result) span_stream_.metrics().OnSpansSent(1);\n  if (span_remnant_->empty()) {\n    span_stream_.metrics().OnSpansSent(1);\n    span_remnant_ = span_stream_")]),
("V","cs-init-stale",[(CS,"  auto metrics_fragment = embedded_metrics_message_.MakeFragment();\n","")  ,(CS,"  embedded_metrics_message_.set_num_dropped_spans(","  auto metrics_fragment = embedded_metrics_message_.MakeFragment();\n  embedded_metrics_message_.set_num_dropped_spans(")]),
]
