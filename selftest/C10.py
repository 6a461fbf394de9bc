U = "src/common/platform/utility_unix.cpp"; IP = "src/network/ip_address.cpp"; B = "3rd_party/base64/src/base64.cpp"
HX = "src/common/hex_conversion.h"; HC = "src/common/hex_conversion.cpp"; UT = "src/common/utility.cpp"; CT = "src/tracer/propagation/cloud_trace_propagator.cpp"
SC = "src/recorder/stream_recorder/satellite_connection.cpp"; CH = "src/common/chunked_http_framing.cpp"; FR = "src/common/fast_random_number_generator.h"
BAD = [
    ("readlink-one-more", [(U, "exe_path.get(), path_max);", "exe_path.get(), path_max + 1);")]),
    ("readlink-terminate", [(U, "  std::string path(exe_path.get(), size);", "  exe_path[size] = '\\0';\n  std::string path(exe_path.get());")]),
    ("readlink-no-terminator", [(U, "std::string path(exe_path.get(), size);", "std::string path(exe_path.get());")]),
    ("readlink-error-unchecked", [(U, "if (size == -1)", "if (size == 0)")]),
    ("ntop-small", [(IP, "std::array<char, INET6_ADDRSTRLEN> buffer = {};", "std::array<char, INET_ADDRSTRLEN> buffer = {};"), (IP, "&ip_address.ipv6_address().sin6_addr, buffer.data(),\n                  sizeof(buffer));", "&ip_address.ipv6_address().sin6_addr, buffer.data(),\n                  INET6_ADDRSTRLEN);")]),
    ("decode-signed", [(B, "REVERSE_LOOKUP_TABLE[static_cast<uint8_t>(input[cur_read + 2])]", "REVERSE_LOOKUP_TABLE[static_cast<uint32_t>(input[cur_read + 2])]")]),
    ("decode-length", [(B, "if (length % 4 || length == 0)", "if (length % 2 || length == 0)")]),
    ("decode-empty", [(B, "if (length % 4 || length == 0)", "if (length % 4)")]),
    ("encode-mask", [(B, "next_c = (cur_char & 0x03) << 4;", "next_c = (cur_char & 0x07) << 4;")]),
    ("encode-index", [(B, "ret.push_back(CHAR_TABLE[cur_char & 0x3f]);", "ret.push_back(CHAR_TABLE[cur_char & 0x7f]);")]),
    ("encode-overrun", [(B, "for (uint64_t i = 0; i < length; ++i) {\n    encodeBase", "for (uint64_t i = 0; i <= length; ++i) {\n    encodeBase")]),
    ("hex-mask", [(HX, "auto lookup_index = static_cast<int>(x) * 2;", "auto lookup_index = (static_cast<int>(x) + 1) * 2;")]),
    ("hex-signed", [(HC, "HexTable[static_cast<unsigned char>(*i)]", "HexTable[*i]")]),
    ("chunk-digits", [(UT, "digit_index >= static_cast<int>(digits.size())", "digit_index > static_cast<int>(digits.size())")]),
    ("cloud-digits", [(CT, "for (i=0; i < Num64BitDecimalDigits; ++i)", "for (i=0; i <= Num64BitDecimalDigits; ++i)")]),
    ("cloud-short", [(CT, "if (s.size() < Num128BitHexDigits)", "if (s.size() < Num64BitHexDigits)")]),
    ("cloud-room", [(CT, "s + offset, CloudContextLength - offset,", "s + offset, CloudContextLength,")]),
    ("read-size", [(SC, "static_cast<void*>(buffer.data()), buffer.size());", "static_cast<void*>(buffer.data()), 1024);")]),
    ("read-error-parsed", [(SC, "    if (rcode <= 0) {\n      break;", "    if (rcode == 0) {\n      break;")]),
    ("chunk-header-start", [(CH, "auto serialization_start = data + (size - ChunkedHttpMaxHeaderSize);", "auto serialization_start = data + (size - Num32BitHexDigits);")]),
]
GOOD = [
    ("readlink-vector", [(U, "constexpr int path_max = 1024;", "constexpr int path_max = 2048;")]),
    ("readlink-terminated", [(U, "exe_path.get(), path_max);", "exe_path.get(), path_max - 1);"), (U, "  std::string path(exe_path.get(), size);", "  exe_path[size] = '\\0';\n  std::string path(exe_path.get());")]),
    ("readlink-local", [(U, "std::unique_ptr<char[]> exe_path{new char[path_max]};", "char exe_path[path_max];"), (U, "exe_path.get(), path_max)", "exe_path, sizeof(exe_path))"), (U, "path(exe_path.get(), size)", "path(exe_path, static_cast<size_t>(size))")]),
    ("decode-for", [(B, "  while (bytes_left > 0) {", "  for (; cur_read < length;) {")]),
    ("decode-unsigned", [(B, "static_cast<uint8_t>(input[cur_read])", "static_cast<unsigned char>(input[cur_read])")]),
    ("encode-pointer", [(B, "  for (uint64_t i = 0; i < length; ++i) {\n    encodeBase(input[i], pos++, next_c, ret);", "  for (const char* p = input; p != input + length; ++p) {\n    encodeBase(*p, pos++, next_c, ret);")]),
    ("ntop-buffer", [(IP, "std::array<char, INET6_ADDRSTRLEN> buffer = {};", "std::array<char, 64> buffer = {};")]),
]
M = [("V", n, e) for n, e in BAD] + [("Q", n, e) for n, e in GOOD]
