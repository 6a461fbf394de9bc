S = "src/network/socket.cpp"; H = "src/network/socket.h"; A = "src/network/ares_dns_resolver/ares_library_handle.cpp"; E = "src/network/event.cpp"; B = "src/network/event_base.cpp"
R = "src/network/ares_dns_resolver/ares_dns_resolver.cpp"; AH = "src/network/ares_dns_resolver/ares_library_handle.h"
M = [
 ("V", "move-ctor-keeps", [(S, "Socket::Socket(Socket&& other) noexcept {\n  file_descriptor_ = other.file_descriptor_;\n  other.file_descriptor_ = InvalidSocket;", "Socket::Socket(Socket&& other) noexcept {\n  file_descriptor_ = other.file_descriptor_;")]),
 ("V", "assign-no-free", [(S, "  assert(this != &other);\n  Free();", "  assert(this != &other);")]),
 ("V", "assign-frees-new", [(S, "  Free();\n  file_descriptor_ = other.file_descriptor_;", "  file_descriptor_ = other.file_descriptor_;\n  Free();")]),
 ("V", "assign-keeps-other", [(S, "  file_descriptor_ = other.file_descriptor_;\n  other.file_descriptor_ = InvalidSocket;\n  return *this;", "  file_descriptor_ = other.file_descriptor_;\n  return *this;")]),
 ("V", "dtor-nothing", [(S, "Socket::~Socket() noexcept { Free(); }", "Socket::~Socket() noexcept {}")]),
 ("V", "free-positive-only", [(S, "void Socket::Free() noexcept {\n  if (file_descriptor_ != InvalidSocket) {", "void Socket::Free() noexcept {\n  if (file_descriptor_ > 2) {")]),
 ("V", "nonblocking-closes", [(S, "  if (rcode == -1) {\n    std::ostringstream oss;\n    oss << \"failed to set the socket as non", "  if (rcode == -1) {\n    Free();\n    std::ostringstream oss;\n    oss << \"failed to set the socket as non")]),
 ("V", "adopt-dropped", [(S, "Socket::Socket(FileDescriptor file_descriptor) noexcept\n    : file_descriptor_{file_descriptor} {}", "Socket::Socket(FileDescriptor file_descriptor) noexcept\n    : file_descriptor_{file_descriptor > 0 ? file_descriptor : InvalidSocket} {}")]),
 ("V", "connect-raw", [(S, "  auto error_code = GetLastErrorCode();\n", "  auto error_code = GetLastErrorCode();\n  if (error_code == ECONNREFUSED) CloseSocket(socket.file_descriptor());\n"), (S, "#include <sstream>", "#include <sstream>\n#include <cerrno>")]),
 ("V", "connect-two", [(S, "  Socket socket{ip_address.family(), SOCK_STREAM};", "  ::socket(ip_address.family(), SOCK_STREAM, 0);\n  Socket socket{ip_address.family(), SOCK_STREAM};")]),
 ("V", "copyable", [(H, "  Socket(const Socket&) = delete;", "  Socket(const Socket& o) noexcept : file_descriptor_{o.file_descriptor_} {}")]),
 ("V", "ares-copyable", [(AH, "class AresLibraryHandle : private Noncopyable {", "class AresLibraryHandle {")]),
 ("V", "ares-no-cleanup", [(A, "{ ares_library_cleanup(); }", "{}")]),
 ("V", "ares-cleanup-on-failure", [(A, "  if (status != 0) {\n", "  if (status != 0) {\n    ares_library_cleanup();\n")]),
 ("V", "ares-status-ignored", [(A, "status != 0", "status < 0")]),
 ("V", "event-move", [(E, "Event::Event(Event&& other) noexcept : event_{other.event_} {\n  other.event_ = nullptr;\n}", "Event::Event(Event&& other) noexcept : event_{other.event_} {\n}")]),
 ("V", "event-free-null", [(E, "  if (event_ != nullptr) {\n    event_free(event_);\n  }", "  event_free(event_);")]),
 ("V", "base-leak", [(B, "  if (event_base_ != nullptr) {\n    event_base_free(event_base_);\n  }\n  event_base_ = other", "  event_base_ = other")]),
 ("V", "channel-leak", [(R, "noexcept { ares_destroy(channel_); }", "noexcept {}")]),
 ("V", "close-elsewhere", [("src/network/vector_write.cpp", "  if (error) {\n", "  if (error) {\n    CloseSocket(socket);\n")]),
 ("Q", "dtor-inline", [(S, "Socket::~Socket() noexcept { Free(); }", "Socket::~Socket() noexcept {\n  if (file_descriptor_ == InvalidSocket) {\n    return;\n  }\n  CloseSocket(file_descriptor_);\n}")]),
 ("Q", "assign-swap-style", [(S, "  Free();\n  file_descriptor_ = other.file_descriptor_;\n  other.file_descriptor_ = InvalidSocket;\n  return *this;", "  std::swap(file_descriptor_, other.file_descriptor_);\n  other.Free();\n  other.file_descriptor_ = InvalidSocket;\n  return *this;"), (S, "#include <sstream>", "#include <sstream>\n#include <utility>")]),
 ("Q", "move-delegating", [(S, "Socket::Socket(Socket&& other) noexcept {\n  file_descriptor_ = other.file_descriptor_;\n  other.file_descriptor_ = InvalidSocket;", "Socket::Socket(Socket&& other) noexcept : Socket{other.file_descriptor_} {\n  other.file_descriptor_ = InvalidSocket;")]),
 ("Q", "free-resets", [(S, "    CloseSocket(file_descriptor_);\n  }", "    CloseSocket(file_descriptor_);\n    file_descriptor_ = InvalidSocket;\n  }")]),
 ("Q", "connect-local", [(S, "  if (rcode == 0) {\n    return socket;\n  }\n  auto error_code = GetLastErrorCode();\n  if (!IsInProgressErrorCode(error_code) && !IsBlockingErrorCode(error_code)) {", "  const bool connected = rcode == 0;\n  const auto error_code = GetLastErrorCode();\n  const bool failed = !connected && !(IsInProgressErrorCode(error_code) || IsBlockingErrorCode(error_code));\n  if (failed) {")]),
 ("Q", "ares-ok-first", [(A, "  if (status != 0) {\n    throw std::runtime_error{std::string{\"ares_library_init failed: \"} +\n                             ares_strerror(status)};\n  }", "  if (status == ARES_SUCCESS) {\n    return;\n  }\n  std::string message{\"ares_library_init failed: \"};\n  message += ares_strerror(status);\n  throw std::runtime_error{message};")]),
 ("Q", "socket-helper", [(S, "namespace lightstep {\n", "namespace lightstep {\nstatic FileDescriptor OpenSocket(int family, int type) noexcept {\n  return ::socket(family, type, 0);\n}\n"), (S, "  file_descriptor_ = ::socket(family, type, 0);", "  file_descriptor_ = OpenSocket(family, type);")]),
 ("Q", "ctor-init", [(S, "Socket::Socket(int family, int type) {\n  file_descriptor_ = ::socket(family, type, 0);\n  if (file_descriptor_ == InvalidSocket) {", "Socket::Socket(int family, int type) {\n  const auto fd = ::socket(family, type, 0);\n  file_descriptor_ = fd;\n  if (fd < 0) {")]),
]
