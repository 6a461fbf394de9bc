PB = "src/common/protobuf.cpp"; EM = "src/recorder/serialization/embedded_metrics_message.cpp"; D = "src/common/direct_coded_output_stream.h"
RF = "src/common/report_request_framing.cpp"; CF = "src/common/chunked_http_framing.cpp"; HC = "src/common/hex_conversion.cpp"
HH = "src/common/hex_conversion.h"
M = [
 ("V", "key-shift", [(PB, "ProtoFieldShift = 3", "ProtoFieldShift = 4")]),
 ("V", "size-without-key", [(PB, "  result +=\n", "  result =\n")]),
 ("V", "size-varint-of-key", [(PB, "CodedOutputStream::VarintSize64(message_size) +\n      message_size", "CodedOutputStream::VarintSize64(message_size + 1) +\n      message_size")]),
 ("V", "wire-type-in-size", [(PB, "VarintSize32(\n      ComputeStreamMessageKey(field, WireTypeLengthDelimited))", "VarintSize32(\n      field)")]),
 ("V", "size-written-32", [(PB, "  stream.WriteVarint64(message_size);", "  stream.WriteVarint64(message.ByteSizeLong() + 1);")]),
 ("V", "order", [(PB, "  stream.WriteVarint64(message_size);\n  message.SerializeWithCachedSizes(&stream);", "  message.SerializeWithCachedSizes(&stream);\n  stream.WriteVarint64(message_size);")]),
 ("V", "skip-empty", [(PB, "  stream.WriteVarint32(ComputeStreamMessageKey(field, WireTypeLengthDelimited));", "  if (message_size == 0) return;\n  stream.WriteVarint32(ComputeStreamMessageKey(field, WireTypeLengthDelimited));")]),
 ("V", "wrong-field", [(EM, "WriteEmbeddedMessage(coded_stream,\n                         collector::ReportRequest::kInternalMetricsFieldNumber", "WriteEmbeddedMessage(coded_stream,\n                         collector::ReportRequest::kAuthFieldNumber")]),
 ("V", "buffer-unresized", [(EM, "  buffer_.resize(ComputeEmbeddedMessageSerializationSize(\n      collector::ReportRequest::kInternalMetricsFieldNumber, message_size));", "  auto n = ComputeEmbeddedMessageSerializationSize(\n      collector::ReportRequest::kInternalMetricsFieldNumber, message_size);\n  if (buffer_.size() < n) buffer_.resize(n);")]),
 ("V", "return-message-size", [(EM, "return {static_cast<void*>(buffer_.data()), static_cast<int>(buffer_.size())};", "return {static_cast<void*>(buffer_.data()), static_cast<int>(message_size)};")]),
 ("Q", "flushed-late", [(EM, "                         message_size, message_);\n  }\n  return {static_cast<void*>(buffer_.data()), static_cast<int>(buffer_.size())};", "                         message_size, message_);\n  return {static_cast<void*>(buffer_.data()), static_cast<int>(buffer_.size())};\n  }")]),
 ("V", "set-other", [(EM, "dropped_spans_count_.set_int_value(num_dropped_spans)", "dropped_spans_count_.set_int_value(dropped_spans_count_.int_value() + num_dropped_spans)")]),
 ("V", "name", [(EM, '"spans.dropped"', '"span.dropped"')]),
 ("V", "big-9-iterations", [(D, "    if (x >= 0x80) {\n      DO_ITERATION;\n    }", "    if (x > 0x80) {\n      DO_ITERATION;\n    }")]),
 ("V", "big-7", [(D, "    DO_ITERATION;  // 8\n", "")]),
 ("V", "big-pow", [(D, "(1ull << 56)", "(1ull << 55)")]),
 ("V", "big-no-cont", [(D, "(x | 0x80)", "(x & 0x7f)")]),
 ("V", "raw-size", [(D, "    data_ = google::protobuf::io::CodedOutputStream::WriteRawToArray(data, size,\n                                                                     data_);", "    google::protobuf::io::CodedOutputStream::WriteRawToArray(data, size,\n                                                                     data_);")]),
 ("V", "tag-as-int", [(D, "WriteVarint64ToArray(x, data_)", "WriteVarint32ToArray(static_cast<uint32_t>(x >> 1), data_)")]),
 ("V", "chunk-crlf", [(CF, "'\\r'", "'\\n'")]),
 ("V", "hex-table", [(HC, '"101112131415161718191a1b', '"101112131415161718191b1a')]),
 ("V", "hex-order", [(HH, "inline opentracing::string_view Uint32ToHex(uint32_t x, char* output) noexcept {\n  for (int i = 4; i-- > 0;) {", "inline opentracing::string_view Uint32ToHex(uint32_t x, char* output) noexcept {\n  for (int i = 0; i < 4; ++i) {")]),
 ("Q", "big-loop", [(D, """    DO_ITERATION;  // 1
    DO_ITERATION;  // 2
    DO_ITERATION;  // 3
    DO_ITERATION;  // 4
    DO_ITERATION;  // 5
    DO_ITERATION;  // 6
    DO_ITERATION;  // 7
    DO_ITERATION;  // 8
""", "    for (int k = 0; k < 8; ++k) DO_ITERATION;\n")]),
 ("Q", "big-local", [(D, "*data_++ = static_cast<google::protobuf::uint8>(x | 0x80); \\", "*data_ = static_cast<google::protobuf::uint8>((x & 0x7f) | 0x80); ++data_; \\")]),
 ("Q", "big-plain", [(D, "    if (x >= 0x80) {\n      DO_ITERATION;\n    }\n    *data_++ = static_cast<google::protobuf::uint8>(x);", "    WriteVarint64(x);")]),
 ("Q", "key-plus", [(PB, "(field << ProtoFieldShift) | wire_type", "field * 8 + wire_type")]),
 ("Q", "size-inline", [(PB, "  result +=\n      google::protobuf::io::CodedOutputStream::VarintSize64(message_size) +\n      message_size;\n  return result;", "  auto length_size = google::protobuf::io::CodedOutputStream::VarintSize64(message_size);\n  return result + message_size + length_size;")]),
 ("Q", "write-tag", [(PB, "stream.WriteVarint32(ComputeStreamMessageKey(field, WireTypeLengthDelimited));", "const auto k = ComputeStreamMessageKey(field, WireTypeLengthDelimited);\n  stream.WriteTag(k);")]),
 ("Q", "to-coded", [(PB, "  message.SerializeWithCachedSizes(&stream);", "  message.SerializeToCodedStream(&stream);")]),
 ("Q", "metrics-locals", [(EM, "  auto message_size = message_.ByteSizeLong();\n  buffer_.resize(ComputeEmbeddedMessageSerializationSize(\n      collector::ReportRequest::kInternalMetricsFieldNumber, message_size));", "  auto message_size = message_.ByteSizeLong();\n  const auto total = ComputeEmbeddedMessageSerializationSize(\n      collector::ReportRequest::kInternalMetricsFieldNumber, message_size);\n  buffer_.clear();\n  buffer_.resize(total);"),
    (EM, "return {static_cast<void*>(buffer_.data()), static_cast<int>(buffer_.size())};", "void* d = buffer_.data();\n  return std::make_pair(d, static_cast<int>(total));")]),
 ("Q", "metrics-overload", [(EM, "buffer_.resize(ComputeEmbeddedMessageSerializationSize(\n      collector::ReportRequest::kInternalMetricsFieldNumber, message_size));", "buffer_.resize(ComputeEmbeddedMessageSerializationSize(\n      collector::ReportRequest::kInternalMetricsFieldNumber, message_));")]),
 ("Q", "hex-forward", [(HH, "inline opentracing::string_view Uint32ToHex(uint32_t x, char* output) noexcept {\n  for (int i = 4; i-- > 0;) {\n    auto lookup_index = (x & 0xFF) * 2;", "inline opentracing::string_view Uint32ToHex(uint32_t x, char* output) noexcept {\n  for (int i = 3; i >= 0; --i) {\n    auto lookup_index = (x % 256) * 2;")]),
]
