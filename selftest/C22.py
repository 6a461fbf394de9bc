from selftest_names import *
HC = "src/common/hex_conversion.cpp"; TC = "src/tracer/propagation/trace_context.cpp"; CT = "src/tracer/propagation/cloud_trace_propagator.cpp"
M = [
 ("V", "length-check", e(B64, "  if (length % 4 || length == 0) {\n    return {};\n  }\n", "  if (length == 0) {\n    return {};\n  }\n")),
 ("V", "length-1-only", e(B64, "if (length % 4 || length == 0)", "if (length % 2 || length == 0)")),
 ("V", "empty", e(B64, "if (length % 4 || length == 0)", "if (length % 4)")),
 ("V", "second-char-unchecked", e(B64, "if (a == 64 || b == 64)", "if (a == 64)")),
 ("V", "any-padding", e(B64, "if (first_padding_index != cur_read + 3)", "if (input[cur_read + 3] != '=')")),
 ("V", "any-padding-2", e(B64, "if (first_padding_index != cur_read + 2)", "if (input[cur_read + 2] != '=')")),
 ("V", "unused-b", e(B64, "(b & 0b1111)", "(b & 0b0111)")),
 ("V", "unused-c-none", e(B64, "} else if (c & 0b11) {\n        // There are unused bits at tail.\n        return {};\n", "} else if (false) {\n        // There are unused bits at tail.\n        return {};\n")),
 ("V", "partial-instead-of-empty", e(B64, "    if (a == 64 || b == 64) {\n      // Input contains an invalid character.\n      return {};", "    if (a == 64 || b == 64) {\n      // Input contains an invalid character.\n      return result;")),
 ("V", "table-hole", e(B64, "64, 64, 64, 62, 64, 64, 64, 63,", "64, 64, 64, 62, 64, 62, 64, 63,")),
 ("V", "table-high", e(B64, "    64, 64, 64, 64, 64, 64, 64, 64, 64, 64, 64, 64, 64, 64, 64, 64};", "    64, 64, 64, 64, 64, 64, 64, 64, 64, 64, 64, 64, 64, 64, 64, 0};")),
 ("V", "table-short", e(B64, "REVERSE_LOOKUP_TABLE[256] = {", "REVERSE_LOOKUP_TABLE[] = {", "    64, 64, 64, 64, 64, 64, 64, 64, 64, 64, 64, 64, 64, 64, 64, 64};", "    64, 64, 64, 64, 64, 64, 64, 64};")),
 ("V", "signed-index", e(B64, "REVERSE_LOOKUP_TABLE[static_cast<uint8_t>(input[cur_read + 3])]", "REVERSE_LOOKUP_TABLE[static_cast<int>(input[cur_read + 3])]")),
 ("V", "read-ahead", e(B64, "  while (bytes_left > 0) {", "  while (bytes_left > 0 && input[cur_read + 4] != '\\0') {")),
 ("V", "padding-check-before", e(B64, "    if (input[length - 2] == '=') {", "    if (input[length - 2] == '=' && input[length - 3] != '=') {", "if (a == 64 || b == 64)", "if (a == 64 || (b == 64 && input[cur_read + 1] != '='))")),
 ("V", "hex-space-inside", e(HC, "    if (value == Nil) {\n", "    if (value == Nil && *i != ' ') {\n")),
 ("V", "hex-overflow", e(HC, "  if (length > Num64BitHexDigits) {", "  if (length > Num64BitHexDigits + 1) {")),
 ("V", "hex-overflow-128", e(HC, "  if (length > 2 * Num64BitHexDigits) {", "  if (length > 2 * Num64BitHexDigits + 1) {")),
 ("V", "hex-empty", e(HC, "    if (first != i) {\n      return 0;\n    }\n    return opentracing::make_unexpected(\n        std::make_error_code(std::errc::invalid_argument));", "    return 0;")),
 ("V", "hex-trailing", e(HC, "  while (i != last && static_cast<bool>(std::isspace(*(last - 1)))) {", "  while (static_cast<bool>(std::isspace(*(last - 1)))) {")),
 ("V", "hex-low-first", e(HC, "  auto x_high_maybe = HexToUintImpl<uint64_t>(i, boundary);", "  auto x_high_maybe = HexToUintImpl<uint64_t>(i + 1, boundary);")),
 ("V", "tp-length", e(TC, "if (s.size() < TraceContextLength)", "if (s.size() + 1 < TraceContextLength)")),
 ("V", "tp-dash", e(TC, "  offset += Num64BitHexDigits;\n  if (s[offset] != '-') {\n    return opentracing::make_unexpected(\n        std::make_error_code(std::errc::invalid_argument));\n  }\n", "  offset += Num64BitHexDigits;\n")),
 ("V", "tp-flags-error", e(TC, "  if (!trace_flags_maybe) {\n    return opentracing::make_unexpected(trace_flags_maybe.error());\n  }\n", "  if (!trace_flags_maybe) {\n    return {};\n  }\n")),
 ("V", "ct-length", e(CT, "if (s.size() < Num128BitHexDigits)", "if (s.size() < Num64BitHexDigits)")),
 ("V", "ct-inside", e(CT, "if (offset == s.length() || std::isdigit(s[offset]) == 0)", "if (std::isdigit(s[offset]) == 0)")),
 ("V", "ct-option", e(CT, "  if (s.size() - offset < 4) {", "  if (s.size() - offset < 1) {")),
 ("V", "ct-slash", e(CT, "  if (s[offset] != '/') {\n    return opentracing::make_unexpected(\n        std::make_error_code(std::errc::invalid_argument));\n  }\n", "")),
 ("Q", "decode-while-index", e(B64, "  while (bytes_left > 0) {", "  while (cur_read != length) {")),
 ("Q", "decode-early-invalid", e(B64, "    if (a == 64 || b == 64) {", "    if ((a | b) & 64) {")),
 ("Q", "decode-temp", e(B64, "  std::string result;\n  result.reserve(max_length);\n", "  std::string result{};\n")),
 ("Q", "decode-operator", e(B64, "    result.push_back(c << 6 | d);", "    result += static_cast<char>((c & 3) * 64 + d);")),
 ("Q", "decode-named-empty", e(B64, "    if (a == 64 || b == 64) {\n      // Input contains an invalid character.\n      return {};", "    if (a == 64 || b == 64) {\n      // Input contains an invalid character.\n      return std::string{};")),
 ("Q", "hex-guard", e(HC, "    result = (result << 4) | value;", "    result = static_cast<T>(result * 16 + value);")),
 ("Q", "tp-index", e(TC, "  if (s.size() < TraceContextLength) {", "  const auto length = s.size();\n  if (length <= TraceContextLength - 1) {")),
]
