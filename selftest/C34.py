C="src/network/ip_address.cpp"; H="src/network/ip_address.h"; S="src/network/socket.cpp"; AR="src/network/ares_dns_resolver/ares_dns_resolver.cpp"
M=[
("V","v4-family6",[(C,"  ipv4_addr.sin_family = AF_INET;\n  ipv4_addr.sin_addr = addr;","  ipv4_addr.sin_family = AF_INET6;\n  ipv4_addr.sin_addr = addr;")]),
("V","v6-as-v4",[(C,"  ipv6_addr.sin6_addr = addr;","  std::memcpy(static_cast<void*>(&reinterpret_cast<sockaddr_in&>(data_).sin_addr), static_cast<const void*>(&addr), sizeof(addr));")]),
("V","default-nofamily",[(C,"IpAddress::IpAddress() noexcept {\n  auto& ipv4_addr = reinterpret_cast<sockaddr_in&>(data_);\n  ipv4_addr.sin_family = AF_INET;","IpAddress::IpAddress() noexcept {\n  auto& ipv4_addr = reinterpret_cast<sockaddr_in&>(data_);\n  (void)ipv4_addr;")]),
("V","sockaddr-short",[(C,"    reinterpret_cast<sockaddr_in6&>(data_) =\n        reinterpret_cast<const sockaddr_in6&>(addr);","    reinterpret_cast<sockaddr_in&>(data_) =\n        reinterpret_cast<const sockaddr_in&>(addr);")]),
("Q","sockaddr-memcpy",[(C,"    reinterpret_cast<sockaddr_in6&>(data_) =\n        reinterpret_cast<const sockaddr_in6&>(addr);","    std::memcpy(static_cast<void*>(&data_), static_cast<const void*>(&addr), sizeof(sockaddr_in6));")]),
("V","sockaddr-over",[(C,"    reinterpret_cast<sockaddr_in&>(data_) =\n        reinterpret_cast<const sockaddr_in&>(addr);","    std::memcpy(static_cast<void*>(&data_), static_cast<const void*>(&addr), sizeof(sockaddr_in6));")]),
("V","uninit",[(H,"sockaddr_storage data_{};","sockaddr_storage data_;")]),
("V","char-rcode",[(C,"  rcode = inet_pton(AF_INET6, s, static_cast<void*>(&ipv6_addr.sin6_addr));\n  if (rcode == 1) {","  rcode = inet_pton(AF_INET6, s, static_cast<void*>(&ipv6_addr.sin6_addr));\n  if (rcode >= 0) {")]),
("V","char-fam",[(C,"    ipv6_addr.sin6_family = AF_INET6;\n    return;","    ipv6_addr.sin6_family = AF_INET;\n    return;")]),
("Q","char-else",[(C,"  if (rcode == 1) {\n    ipv4_addr.sin_family = AF_INET;\n    return;\n  }","  if (1 == rcode) {\n    data_.ss_family = AF_INET;\n    return;\n  }")]),
("V","char-flow",[(C,"static_cast<void*>(&ipv6_addr.sin6_addr)","static_cast<void*>(&ipv6_addr.sin6_flowinfo)")]),
("V","port-noswap",[(C,"sin6_port = htons(port)","sin6_port = port")]),
("V","port-missing",[(C,"  if (family() == AF_INET6) {\n    reinterpret","  if (family() == AF_PACKET) {\n    reinterpret")]),
("Q","port-both",[(C,"  if (family() == AF_INET) {\n    reinterpret_cast<sockaddr_in&>(data_).sin_port = htons(port);\n    return;\n  }\n  if (family() == AF_INET6) {","  if (family() == AF_INET || family() == AF_INET6) {")]),
("Q","port-switch",[(C,"  if (family() == AF_INET) {\n    reinterpret_cast<sockaddr_in&>(data_).sin_port = htons(port);\n    return;\n  }\n  if (family() == AF_INET6) {\n    reinterpret_cast<sockaddr_in6&>(data_).sin6_port = htons(port);\n    return;\n  }","  const auto network_port = htons(port);\n  switch (family()) {\n    case AF_INET:\n      reinterpret_cast<sockaddr_in&>(data_).sin_port = network_port;\n      return;\n    case AF_INET6:\n      reinterpret_cast<sockaddr_in6&>(data_).sin6_port = network_port;\n      return;\n    default:\n      break;\n  }")]),
("V","ctor-port",[(C,"  set_port(port);\n","  reinterpret_cast<sockaddr_in&>(data_).sin_addr.s_addr = port;\n")]),
("V","eq-noport",[(C,"lhs.ipv4_address().sin_port == rhs.ipv4_address().sin_port &&\n           ","")]),
("V","eq-family",[(C,"  if (lhs.family() != rhs.family()) {\n    return false;\n  }\n","")]),
("V","eq-v6-16",[(C,"sizeof(lhs.ipv6_address())) == 0","sizeof(lhs.addr())) == 0")]),
("V","eq-storage",[(C,"sizeof(lhs.ipv6_address())) == 0","sizeof(sockaddr_storage)) == 0")]),
("Q","eq-fields",[(C,"    return std::memcmp(static_cast<const void*>(&lhs.ipv6_address()),\n                       static_cast<const void*>(&rhs.ipv6_address()),\n                       sizeof(lhs.ipv6_address())) == 0;","    const auto& a = lhs.ipv6_address();\n    const auto& b = rhs.ipv6_address();\n    if (std::memcmp(static_cast<const void*>(&a), static_cast<const void*>(&b), sizeof(a)) != 0) return false;\n    return true;")]),
("V","eq-neg",[(C,"sizeof(lhs.ipv6_address())) == 0","sizeof(lhs.ipv6_address())) != 0")]),
("V","text-af",[(C,"s = inet_ntop(AF_INET6, &ip","s = inet_ntop(AF_INET, &ip")]),
("V","text-size",[(C,"std::array<char, INET6_ADDRSTRLEN>","std::array<char, INET_ADDRSTRLEN>")]),
("V","text-size2",[(C,"buffer.data(),\n                  sizeof(buffer));\n  } else if","buffer.data(),\n                  2 * sizeof(buffer));\n  } else if")]),
("V","text-off",[(C,"&ip_address.ipv6_address().sin6_addr, buffer","&ip_address.ipv4_address().sin_addr, buffer")]),
("Q","text-var",[(C,"  if (ip_address.family() == AF_INET) {\n    s = inet_ntop(AF_INET, ","  const auto family = ip_address.family();\n  if (AF_INET == family) {\n    s = inet_ntop(family, ")]),
("V","conn-size",[(S,"sizeof(ip_address.ipv6_address())","sizeof(ip_address.ipv4_address())")]),
("V","conn-storage",[(S,"socket.Connect(ip_address.addr(), sizeof(ip_address.ipv6_address()))","socket.Connect(ip_address.addr(), sizeof(ip_address.addr()))")]),
("V","conn-family",[(S,"Socket socket{ip_address.family(), SOCK_STREAM}","Socket socket{AF_INET, SOCK_STREAM}")]),
("V","conn-dgram",[(S,"Socket socket{ip_address.family(), SOCK_STREAM}","Socket socket{ip_address.family(), SOCK_DGRAM}")]),
("Q","conn-if",[(S,"  int rcode;\n  switch (ip_address.family()) {\n    case AF_INET:\n      rcode =\n          socket.Connect(ip_address.addr(), sizeof(ip_address.ipv4_address()));\n      break;\n    case AF_INET6:\n      rcode =\n          socket.Connect(ip_address.addr(), sizeof(ip_address.ipv6_address()));\n      break;\n    default:\n      throw std::runtime_error{\"Unknown socket family.\"};\n  }","  size_t size;\n  if (ip_address.family() == AF_INET) {\n    size = sizeof(sockaddr_in);\n  } else if (ip_address.family() == AF_INET6) {\n    size = sizeof(sockaddr_in6);\n  } else {\n    throw std::runtime_error{\"Unknown socket family.\"};\n  }\n  const int rcode = socket.Connect(ip_address.addr(), size);")]),
("V","ares-swap",[(AR,"hosts_.h_addrtype == AF_INET)","hosts_.h_addrtype != AF_INET6)")]),
]
