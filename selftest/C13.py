S = "src/network/socket.cpp"; NU = "src/common/platform/network_unix.cpp"; EU = "src/common/platform/error_unix.cpp"; SC = "src/recorder/stream_recorder/satellite_connection.cpp"
M = [
 ("V", "no-nonblocking", [(S, "  socket.SetNonblocking();\n", "")]),
 ("V", "nonblocking-after", [(S, "  socket.SetNonblocking();\n", ""), (S, "  if (rcode == 0) {\n    return socket;", "  socket.SetNonblocking();\n  if (rcode == 0) {\n    return socket;")]),
 ("V", "ipv4-only-nonblocking", [(S, "  socket.SetNonblocking();\n", "  if (ip_address.family() == AF_INET) {\n    socket.SetNonblocking();\n  }\n")]),
 ("V", "no-reuse", [(S, "  socket.SetReuseAddress();\n", "")]),
 ("V", "reuse-zero", [(NU, "int optvalue = 1;", "int optvalue = 0;")]),
 ("V", "wrong-option", [(NU, "SO_REUSEADDR", "SO_KEEPALIVE")]),
 ("V", "nonblock-and", [(NU, "::fcntl(socket, F_GETFL, 0) | O_NONBLOCK", "::fcntl(socket, F_GETFL, 0) | O_NDELAY & O_CLOEXEC")]),
 ("V", "flags-lost", [(NU, "::fcntl(socket, F_GETFL, 0) | O_NONBLOCK", "O_NONBLOCK")]),
 ("V", "getfd", [(NU, "::fcntl(socket, F_GETFL, 0)", "::fcntl(socket, F_GETFD, 0)")]),
 ("V", "setfd", [(NU, "::fcntl(socket, F_SETFL, ", "::fcntl(socket, F_SETFD, ")]),
 ("V", "inprogress-failure", [(S, "!IsInProgressErrorCode(error_code) && !IsBlockingErrorCode(error_code)", "!IsInProgressErrorCode(error_code)")]),
 ("V", "or-instead-of-and", [(S, "!IsInProgressErrorCode(error_code) && !IsBlockingErrorCode(error_code)", "!IsInProgressErrorCode(error_code) || !IsBlockingErrorCode(error_code)")]),
 ("V", "already", [(EU, "error_code == EINPROGRESS", "error_code == EALREADY")]),
 ("V", "ewouldblock", [(EU, "return error_code == EAGAIN || error_code == EWOULDBLOCK;", "return error_code == EAGAIN || error_code == EINTR;")]),
 ("V", "datagram", [(S, "  Socket socket{ip_address.family(), SOCK_STREAM};", "  Socket socket{ip_address.family(), SOCK_DGRAM};")]),
 ("V", "always-inet", [(S, "  Socket socket{ip_address.family(), SOCK_STREAM};", "  Socket socket;")]),
 ("V", "v6-size", [(S, "          socket.Connect(ip_address.addr(), sizeof(ip_address.ipv6_address()));", "          socket.Connect(ip_address.addr(), sizeof(ip_address.ipv4_address()));")]),
 ("V", "other-socket", [(S, "  if (rcode == 0) {\n    return socket;", "  if (rcode == 0) {\n    return Socket{ip_address.family(), SOCK_STREAM};")]),
 ("V", "bypass", [(SC, "  socket_ = lightstep::Connect(endpoint.first);", "  socket_ = Socket{endpoint.first.family(), SOCK_STREAM};\n  socket_.Connect(endpoint.first.addr(), sizeof(sockaddr_in));")]),
 ("V", "reblocked", [(S, "  socket.SetReuseAddress();\n", "  socket.SetReuseAddress();\n  ::fcntl(socket.file_descriptor(), F_SETFL, 0);\n"), (S, "#include <sstream>", "#include <sstream>\n#include <fcntl.h>")]),
 ("Q", "order", [(S, "  socket.SetNonblocking();\n  socket.SetReuseAddress();\n", "  socket.SetReuseAddress();\n  socket.SetNonblocking();\n")]),
 ("Q", "prepare-helper", [(S, "Socket Connect(const IpAddress& ip_address) {\n  Socket socket{ip_address.family(), SOCK_STREAM};\n  socket.SetNonblocking();\n  socket.SetReuseAddress();\n", "static Socket MakeSocket(const IpAddress& ip_address) {\n  Socket socket{ip_address.family(), SOCK_STREAM};\n  socket.SetNonblocking();\n  socket.SetReuseAddress();\n  return socket;\n}\n\nSocket Connect(const IpAddress& ip_address) {\n  Socket socket = MakeSocket(ip_address);\n")]),
 ("Q", "size-first", [(S, "  int rcode;\n  switch (ip_address.family()) {\n    case AF_INET:\n      rcode =\n          socket.Connect(ip_address.addr(), sizeof(ip_address.ipv4_address()));\n      break;\n    case AF_INET6:\n      rcode =\n          socket.Connect(ip_address.addr(), sizeof(ip_address.ipv6_address()));\n      break;\n    default:\n      throw std::runtime_error{\"Unknown socket family.\"};\n  }\n", "  size_t size;\n  if (ip_address.family() == AF_INET) {\n    size = sizeof(ip_address.ipv4_address());\n  } else if (ip_address.family() == AF_INET6) {\n    size = sizeof(ip_address.ipv6_address());\n  } else {\n    throw std::runtime_error{\"Unknown socket family.\"};\n  }\n  const int rcode = socket.Connect(ip_address.addr(), size);\n")]),
 ("Q", "flags-local", [(NU, "  return ::fcntl(socket, F_SETFL, ::fcntl(socket, F_GETFL, 0) | O_NONBLOCK);", "  int flags = ::fcntl(socket, F_GETFL, 0);\n  flags |= O_NONBLOCK;\n  return ::fcntl(socket, F_SETFL, flags);")]),
 ("Q", "codes-switch", [(EU, "return error_code == EAGAIN || error_code == EWOULDBLOCK;", "if (error_code != EAGAIN) {\n    return false;\n  }\n  return true;")]),
 ("Q", "early-throw", [(S, "  if (rcode == 0) {\n    return socket;\n  }\n  auto error_code = GetLastErrorCode();\n  if (!IsInProgressErrorCode(error_code) && !IsBlockingErrorCode(error_code)) {", "  const auto error_code = GetLastErrorCode();\n  const bool pending = IsInProgressErrorCode(error_code) || IsBlockingErrorCode(error_code);\n  if (rcode != 0 && !pending) {")]),
]
