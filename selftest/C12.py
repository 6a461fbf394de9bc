S = "src/network/socket.cpp"; A = "src/network/ares_dns_resolver/ares_library_handle.cpp"; E = "src/network/event.cpp"; B = "src/network/event_base.cpp"
R = "src/network/ares_dns_resolver/ares_dns_resolver.cpp"; NU = "src/common/platform/network_unix.cpp"; U = "src/common/platform/utility_unix.cpp"; I = "src/network/ip_address.cpp"; F = "src/common/platform/fork_unix.cpp"
M = [
 ("V", "socket-zero", [(S, "if (file_descriptor_ == InvalidSocket) {\n    std", "if (file_descriptor_ == 0) {\n    std")]),
 ("V", "nonblock-positive", [(S, "  auto rcode = SetSocketNonblocking(file_descriptor_);\n  if (rcode == -1) {", "  auto rcode = SetSocketNonblocking(file_descriptor_);\n  if (rcode == 1) {")]),
 ("V", "reuse-ignored", [(S, "  auto rcode = SetSocketReuseAddress(file_descriptor_);\n  if (rcode == -1) {", "  auto rcode = SetSocketReuseAddress(file_descriptor_);\n  if (rcode == -1 && file_descriptor_ < 0) {")]),
 ("V", "fcntl-dropped", [(NU, "  return ::fcntl(socket, F_SETFL, ::fcntl(socket, F_GETFL, 0) | O_NONBLOCK);", "  ::fcntl(socket, F_SETFL, ::fcntl(socket, F_GETFL, 0) | O_NONBLOCK);\n  return 0;")]),
 ("V", "setsockopt-wrong-code", [(NU, "  return ::setsockopt(socket, SOL_SOCKET, SO_REUSEADDR,\n                      static_cast<void*>(&optvalue), sizeof(int));", "  return ::setsockopt(socket, SOL_SOCKET, SO_REUSEADDR,\n                      static_cast<void*>(&optvalue), sizeof(int)) == 0 ? 0 : 1;")]),
 ("V", "connect-any-error", [(S, "!IsInProgressErrorCode(error_code) && !IsBlockingErrorCode(error_code)", "!IsInProgressErrorCode(error_code) && !IsBlockingErrorCode(error_code) && error_code != ETIMEDOUT"), (S, "#include <sstream>", "#include <sstream>\n#include <cerrno>")]),
 ("V", "connect-stale-errno", [(S, "  auto error_code = GetLastErrorCode();\n", "  socket.SetReuseAddress();\n  auto error_code = GetLastErrorCode();\n")]),
 ("V", "connect-or", [("src/common/platform/error_unix.cpp", "return error_code == EINPROGRESS;", "return error_code == EINPROGRESS || error_code == ENETUNREACH;")]),
 ("V", "readlink-used", [(U, "  if (size == -1) {", "  if (size == 0) {")]),
 ("V", "pton-unchecked", [(I, "  rcode = inet_pton(AF_INET6, s, static_cast<void*>(&ipv6_addr.sin6_addr));\n  if (rcode == 1) {", "  rcode = inet_pton(AF_INET6, s, static_cast<void*>(&ipv6_addr.sin6_addr));\n  if (rcode >= 0) {")]),
 ("V", "pton-not-minus-one", [(I, "  if (rcode == 1) {\n    ipv4_addr.sin_family", "  if (rcode != -1) {\n    ipv4_addr.sin_family")]),
 ("V", "atfork-void", [(F, "  return ::pthread_atfork(prepare, parent, child);", "  ::pthread_atfork(prepare, parent, child);\n  return 0;")]),
 ("V", "ares-negative", [(A, "status != 0", "status < 0")]),
 ("V", "event-null", [(E, "  if (event_ == nullptr) {\n    throw", "  if (event_ == nullptr && callback == nullptr) {\n    throw")]),
 ("V", "event-add", [(E, "  auto rcode = event_add(event_, tv);\n  if (rcode != 0) {", "  auto rcode = event_add(event_, tv);\n  if (rcode > 0) {")]),
 ("V", "event-del", [(E, "  auto rcode = event_del(event_);\n  if (rcode != 0) {\n    throw std::runtime_error{\"event_del failed\"};\n  }", "  event_del(event_);")]),
 ("V", "dispatch", [(B, "  if (rcode != 0) {\n    std::ostringstream oss;", "  if (rcode > 1) {\n    std::ostringstream oss;")]),
 ("V", "once", [(B, "  if (rcode != 0) {\n    throw std::runtime_error{\"OnTimeout", "  if (rcode == -2) {\n    throw std::runtime_error{\"OnTimeout")]),
 ("V", "init-options", [(R, "    logger_.Error(\"ares_init_options failed: \", ares_strerror(status));\n    throw std::runtime_error{\"ares_init_options failed\"};", "    logger_.Error(\"ares_init_options failed: \", ares_strerror(status));")]),
 ("V", "library-unchecked", [(R, "  if (ares_library_handle_ == nullptr) {\n    throw std::runtime_error{\"ares failed to initialize\"};\n  }\n", "")]),
 ("V", "new-site", [("src/common/utility.cpp", "namespace lightstep {\n", "namespace lightstep {\nsize_t DrainSocket(int fd) {\n  char buffer[64];\n  return static_cast<size_t>(::read(fd, buffer, sizeof(buffer))) + 1;\n}\n"), ("src/common/utility.cpp", "#include <sstream>", "#include <sstream>\n#include <unistd.h>\nnamespace lightstep { size_t DrainSocket(int fd); }")]),
 ("Q", "socket-negative", [(S, "if (file_descriptor_ == InvalidSocket) {\n    std", "if (file_descriptor_ < 0) {\n    std")]),
 ("Q", "check-helper", [(S, "namespace lightstep {\n", "namespace lightstep {\nstatic void Check(int rcode, const char* what) {\n  if (rcode != -1) {\n    return;\n  }\n  std::ostringstream oss;\n  oss << what << GetErrorCodeMessage(GetLastErrorCode());\n  throw std::runtime_error{oss.str()};\n}\n"), (S, "  auto rcode = SetSocketNonblocking(file_descriptor_);\n  if (rcode == -1) {\n    std::ostringstream oss;\n    oss << \"failed to set the socket as non-blocking: \"\n        << GetErrorCodeMessage(GetLastErrorCode());\n    throw std::runtime_error{oss.str()};\n  }", "  Check(SetSocketNonblocking(file_descriptor_), \"failed to set the socket as non-blocking: \");")]),
 ("Q", "fcntl-two-steps", [(NU, "  return ::fcntl(socket, F_SETFL, ::fcntl(socket, F_GETFL, 0) | O_NONBLOCK);", "  const int flags = ::fcntl(socket, F_GETFL, 0);\n  if (flags == -1) {\n    return -1;\n  }\n  return ::fcntl(socket, F_SETFL, flags | O_NONBLOCK);")]),
 ("Q", "setsockopt-code", [(NU, "  return ::setsockopt(socket, SOL_SOCKET, SO_REUSEADDR,\n                      static_cast<void*>(&optvalue), sizeof(int));", "  const auto rcode = ::setsockopt(socket, SOL_SOCKET, SO_REUSEADDR,\n                      static_cast<void*>(&optvalue), sizeof(int));\n  if (rcode < 0) {\n    return -1;\n  }\n  return 0;")]),
 ("Q", "connect-local", [(S, "  if (rcode == 0) {\n    return socket;\n  }\n  auto error_code = GetLastErrorCode();\n  if (!IsInProgressErrorCode(error_code) && !IsBlockingErrorCode(error_code)) {", "  const auto error_code = GetLastErrorCode();\n  const bool failed = rcode != 0 && !(IsInProgressErrorCode(error_code) || IsBlockingErrorCode(error_code));\n  if (failed) {")]),
 ("Q", "connect-switch", [(S, "  if (!IsInProgressErrorCode(error_code) && !IsBlockingErrorCode(error_code)) {", "  bool failed = true;\n  switch (error_code) {\n    case EINPROGRESS:\n    case EAGAIN:\n      failed = false;\n      break;\n    default:\n      break;\n  }\n  if (failed) {"), (S, "#include <sstream>", "#include <sstream>\n#include <cerrno>")]),
 ("Q", "pton-switch", [(I, "  if (rcode == 1) {\n    ipv4_addr.sin_family = AF_INET;\n    return;\n  }", "  const bool is_ipv4 = rcode > 0;\n  if (is_ipv4) {\n    ipv4_addr.sin_family = AF_INET;\n    return;\n  }")]),
 ("Q", "readlink-negative", [(U, "  if (size == -1) {\n    return \"c++-program\";  // Dunno...\n  }\n  std::string path(exe_path.get(), size);", "  std::string path = \"c++-program\";\n  if (size >= 0) {\n    path.assign(exe_path.get(), static_cast<size_t>(size));\n  }")]),
 ("Q", "event-add-minus-one", [(E, "  auto rcode = event_add(event_, tv);\n  if (rcode != 0) {", "  if (event_add(event_, tv) == -1) {")]),
 ("Q", "new-site-checked", [("src/common/utility.cpp", "namespace lightstep {\n", "namespace lightstep {\nsize_t DrainSocket(int fd) {\n  char buffer[64];\n  auto n = ::read(fd, buffer, sizeof(buffer));\n  if (n < 0) throw std::runtime_error{\"read\"};\n  return static_cast<size_t>(n) + 1;\n}\n"), ("src/common/utility.cpp", "#include <sstream>", "#include <sstream>\n#include <stdexcept>\n#include <unistd.h>\nnamespace lightstep { size_t DrainSocket(int fd); }")]),
]
