SI = "src/recorder/stream_recorder/stream_recorder_impl.cpp"; SC = "src/recorder/stream_recorder/satellite_connection.cpp"; SP = "src/tracer/span.cpp"; AR = "src/recorder/auto_recorder.cpp"; DM = "src/recorder/stream_recorder/satellite_dns_resolution_manager.cpp"
SS = "src/recorder/stream_recorder/span_stream.cpp"; SR = "src/recorder/stream_recorder/stream_recorder.cpp"; RR = "src/recorder/serialization/report_request.cpp"; TR = "src/tracer/propagation/trace_context_propagator.cpp"; EV = "src/network/event.h"
M = [
 ("V", "run-unhandled", [(SI, "void StreamRecorderImpl::Run() noexcept try {", "void StreamRecorderImpl::Run() noexcept {"), (SI, '} catch (const std::exception& e) {\n  stream_recorder_.logger().Error("StreamRecorder::Run failed: ", e.what());\n}', "}")]),
 ("V", "run-logic-only", [(SI, '} catch (const std::exception& e) {\n  stream_recorder_.logger().Error("StreamRecorder::Run', '} catch (const std::bad_alloc& e) {\n  stream_recorder_.logger().Error("StreamRecorder::Run')]),
 ("V", "rethrow", [(SI, '  stream_recorder_.logger().Error("StreamRecorder::Run failed: ", e.what());\n', '  stream_recorder_.logger().Error("StreamRecorder::Run failed: ", e.what());\n  throw;\n')]),
 ("V", "before-try", [(SP, 'void Span::SetBaggageItem(opentracing::string_view restricted_key,\n                          opentracing::string_view value) noexcept try {\n  auto lowercase_key = ToLower(restricted_key);\n', 'void Span::SetBaggageItem(opentracing::string_view restricted_key,\n                          opentracing::string_view value) noexcept {\n  auto lowercase_key = ToLower(restricted_key);\n try {\n'), (SP, '  tracer_->logger().Error("SetBaggageItem failed: ", e.what());\n}', '  tracer_->logger().Error("SetBaggageItem failed: ", e.what());\n}\n}')]),
 ("V", "destructor-throws", [(SI, "  exit_ = true;\n  thread_.join();", "  exit_ = true;\n  event_base_.LoopBreak();\n  thread_.join();")]),
 ("V", "noexcept-alloc", [(SS, "void SpanStream::Allot() noexcept { allotment_ = span_buffer_.Peek(); }", "void SpanStream::Allot() noexcept {\n  remnant_.reset(new ChainedStream{});\n  allotment_ = span_buffer_.Peek();\n}")]),
 ("V", "noexcept-throw-deep", [(SS, "int SpanStream::num_fragments() const noexcept {\n", "int SpanStream::num_fragments() const noexcept {\n  if (allotment_.size() > 1000000) {\n    throw std::runtime_error{\"too many\"};\n  }\n")]),
 ("V", "abort-on-failure", [(SI, '  stream_recorder_.logger().Error("StreamRecorder::Run failed: ", e.what());\n', '  stream_recorder_.logger().Error("StreamRecorder::Run failed: ", e.what());\n  std::abort();\n')]),
 ("V", "no-try-in-lambda", [(TR, "        } catch (const std::bad_alloc&) {", "        } catch (const std::out_of_range&) {")]),
 ("Q", "no-noexcept", [(SI, "void StreamRecorderImpl::Run() noexcept try {", "void StreamRecorderImpl::Run() try {"), ("src/recorder/stream_recorder/stream_recorder_impl.h", "void Run() noexcept;", "void Run();")]),
 ("Q", "inner-try", [(SI, "void StreamRecorderImpl::Run() noexcept try {\n  event_base_.Dispatch();\n}", "void StreamRecorderImpl::Run() noexcept {\n  try {\n    event_base_.Dispatch();\n  }"), (SI, '  stream_recorder_.logger().Error("StreamRecorder::Run failed: ", e.what());\n', '  stream_recorder_.logger().Error("StreamRecorder::Run failed: ", e.what());\n  }\n')]),
 ("Q", "catch-all", [(SI, '} catch (const std::exception& e) {\n  stream_recorder_.logger().Error("StreamRecorder::Run failed: ", e.what());\n', '} catch (...) {\n  stream_recorder_.logger().Error("StreamRecorder::Run failed");\n')]),
 ("Q", "break-helper", [(SI, "      return event_base_.LoopBreak();\n", "      event_base_.LoopBreak();\n      return;\n")]),
 ("Q", "copyout-helper", [("src/common/buffer_chain.cpp", "//--------------------------------------------------------------------------------------------------\n// CopyOut", "static void Refuse() noexcept { std::terminate(); }\n\n//--------------------------------------------------------------------------------------------------\n// CopyOut"), ("src/common/buffer_chain.cpp", "    std::terminate();\n  }\n  auto", "    Refuse();\n  }\n  auto")]),
]
