from selftest_names import *
HC = "src/common/hex_conversion.cpp"; HH = "src/common/hex_conversion.h"; TC = "src/tracer/propagation/trace_context.cpp"; CT = "src/tracer/propagation/cloud_trace_propagator.cpp"
M = [
 ("V", "enc-mask", e(B64, "next_c = (cur_char & 0x0f) << 2;", "next_c = (cur_char & 0x1f) << 2;")),
 ("V", "enc-last", e(B64, "    ret.push_back(CHAR_TABLE[last_char]);\n    ret.push_back('=');\n    break;", "    ret.push_back(CHAR_TABLE[last_char]);\n    break;")),
 ("V", "enc-alphabet", e(B64, "0123456789+/", "0123456789-_")),
 ("V", "enc-alphabet-both", e(B64, "0123456789+/", "0123456789/+", "62, 64, 64, 64, 63,", "63, 64, 64, 64, 62,")),
 ("V", "enc-pos-narrow", e(B64, "  uint64_t pos = 0;\n", "  uint8_t pos = 0;\n")),
 ("V", "enc-pos-16", e(B64, "  uint64_t pos = 0;\n", "  uint16_t pos = 0;\n")),
 ("V", "enc-i-16", e(B64, "for (uint64_t i = 0; i < length; ++i)", "for (uint16_t i = 0; i < length; ++i)")),
 ("V", "enc-stop-at-nul", e(B64, "    encodeBase(input[i], pos++, next_c, ret);", "    if (input[i] == '\\0' && i + 1 == length) break;\n    encodeBase(input[i], pos++, next_c, ret);")),
 ("V", "dec-shift", e(B64, "    result.push_back(b << 4 | c >> 2);", "    result.push_back(b << 4 | c >> 3);")),
 ("V", "dec-drop-nul", e(B64, "    result.push_back(c << 6 | d);", "    if (c || d) result.push_back(c << 6 | d);")),
 ("V", "dec-clear", e(B64, "  return result;\n}\n\nvoid", "  result.shrink_to_fit();\n  result.push_back('\\0');\n  return result;\n}\n\nvoid")),
 ("V", "hex-nibbles", e(HH, "    output[i * 2 + 1] = HexDigitLookupTable[lookup_index + 1];\n    x >>= 8;\n  }\n  return {output, Num64BitHexDigits};", "    output[i * 2 + 1] = HexDigitLookupTable[lookup_index];\n    x >>= 8;\n  }\n  return {output, Num64BitHexDigits};")),
 ("V", "hex-shift", e(HC, "    result = (result << 4) | value;", "    result = (result << 4) + (value & 7) + (value & 8 ? 8 : 0) * (result != 0);")),
 ("V", "tp-order", e(TC, "  Uint64ToHex(trace_context.trace_id_high, s + offset);\n  offset += Num64BitHexDigits;\n  Uint64ToHex(trace_context.trace_id_low, s + offset);", "  Uint64ToHex(trace_context.trace_id_low, s + offset);\n  offset += Num64BitHexDigits;\n  Uint64ToHex(trace_context.trace_id_high, s + offset);")),
 ("V", "tp-flags", e(TC, "  trace_context.trace_flags = *trace_flags_maybe;", "  trace_context.trace_flags = *trace_flags_maybe & 1;")),
 ("V", "tp-swap-parse", e(TC, "      trace_context.trace_id_high, trace_context.trace_id_low);", "      trace_context.trace_id_low, trace_context.trace_id_high);")),
 ("V", "ct-swap", e(CT, "  Uint64ToHex(trace_context.trace_id_high, s);\n  offset += Num64BitHexDigits;\n  Uint64ToHex(trace_context.trace_id_low, s + offset);", "  Uint64ToHex(trace_context.trace_id_low, s);\n  offset += Num64BitHexDigits;\n  Uint64ToHex(trace_context.trace_id_high, s + offset);")),
 ("V", "ct-parent", e(CT, "static_cast<unsigned long long>(trace_context.parent_id)", "static_cast<unsigned long long>(static_cast<uint32_t>(trace_context.parent_id))")),
 ("Q", "enc-array", e(B64, "  uint64_t output_length = (length + 2) / 3 * 4;\n  std::string ret;\n  ret.reserve(output_length);\n\n  uint64_t pos = 0;\n  uint8_t next_c = 0;\n\n  for (uint64_t i = 0; i < length; ++i) {\n    encodeBase(input[i], pos++, next_c, ret);\n  }\n\n  encodeLast(pos, next_c, ret);\n\n  return ret;",
   "  std::string ret((length + 2) / 3 * 4, '=');\n  uint64_t out = 0;\n  for (uint64_t i = 0; i < length; i += 3) {\n    const auto byte = [&](uint64_t k) -> unsigned {\n      return k < length ? static_cast<uint8_t>(input[k]) : 0u;\n    };\n    const unsigned x = byte(i) << 16 | byte(i + 1) << 8 | byte(i + 2);\n    ret[out] = CHAR_TABLE[x >> 18];\n    ret[out + 1] = CHAR_TABLE[(x >> 12) % 64];\n    if (i + 1 < length) ret[out + 2] = CHAR_TABLE[(x >> 6) & 63];\n    if (i + 2 < length) ret[out + 3] = CHAR_TABLE[x & 63];\n    out += 4;\n  }\n  return ret;")),
 ("Q", "enc-append", e(B64, "    ret.push_back('=');\n    ret.push_back('=');\n", "    ret.append(2, '=');\n")),
 ("Q", "enc-append-text", e(B64, "    ret.push_back('=');\n    ret.push_back('=');\n", "    ret += \"==\";\n")),
 ("Q", "enc-if", e(B64, "  switch (pos % 3) {\n  case 1:\n    ret.push_back(CHAR_TABLE[last_char]);\n    ret.push_back('=');\n    ret.push_back('=');\n    break;\n  case 2:\n    ret.push_back(CHAR_TABLE[last_char]);\n    ret.push_back('=');\n    break;\n  default:\n    break;\n  }", "  const auto rest = pos % 3;\n  if (rest == 0) {\n    return;\n  }\n  ret.push_back(CHAR_TABLE[last_char]);\n  for (auto k = rest; k < 3; ++k) {\n    ret.push_back('=');\n  }")),
 ("Q", "dec-word", e(B64, "    result.push_back(c << 6 | d);\n", "    const unsigned tail = (static_cast<unsigned>(c) << 6) + d;\n    result.push_back(static_cast<char>(tail & 0xff));\n")),
 ("Q", "hex-loop", e(HH, "  for (int i = 8; i-- > 0;) {", "  for (int i = 7; i >= 0; --i) {")),
 ("Q", "tp-direct", e(TC, "  *(s + offset) = '-';\n  ++offset;\n", "  s[offset++] = '-';\n")),
]
