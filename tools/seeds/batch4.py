S = {}
B64 = "3rd_party/base64/src/base64.cpp"
S["c22-mid-padding"] = dict(property="C22", needs="a base64 text with '=' in the third place of a group that is not the last",
 breaks="padding is taken wherever it stands, so what precedes it is accepted and the rest of the text ignored",
 edits=[(B64, "      if (first_padding_index != cur_read + 2) {", "      if (input[cur_read + 2] != '=') {")],
 demo=r'''
#include "lightstep/base64/base64.h"
#include <cstdio>
#include <string>
using namespace lightstep;
int main() {
  for (std::string s : {"QQ==QQ==", "AAAAQQ==AAAA", "QUJDQQ==QQ==QUJD"}) {
    if (!Base64::decode(s.data(), s.size()).empty()) { std::printf("%s was accepted\n", s.c_str()); return 1; }
  }
  std::string good = "QUJDQQ==";
  if (Base64::decode(good.data(), good.size()) != "ABCA") { std::printf("a good text is refused\n"); return 1; }
}
''')
S["c22-unused-bits"] = dict(property="C22", needs="a text ending in one padding character whose last digit has only the second lowest bit set",
 breaks="one of the two bits that encode nothing is not checked, so malformed text is accepted",
 edits=[(B64, "} else if (c & 0b11) {", "} else if (c & 0b1) {")],
 demo=r'''
#include "lightstep/base64/base64.h"
#include <cstdio>
#include <string>
using namespace lightstep;
int main() {
  const char* digits = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  for (int i = 0; i < 64; ++i) {
    std::string s = std::string{"AQ"} + digits[i] + "=";
    bool accepted = !Base64::decode(s.data(), s.size()).empty();
    if (accepted != (i % 4 == 0)) { std::printf("%s: accepted %d\n", s.c_str(), accepted); return 1; }
  }
}
''')
S["c23-encode-position-narrow"] = dict(property="C23", needs="a span context whose serialization is longer than 256 bytes",
 breaks="the position wraps round at 256, which is no multiple of three, so the text written does not decode to what was given",
 edits=[(B64, "  uint64_t pos = 0;\n  uint8_t next_c = 0;", "  uint8_t pos = 0;\n  uint8_t next_c = 0;")],
 demo=r'''
#include "lightstep/base64/base64.h"
#include <cstdio>
#include <string>
using namespace lightstep;
int main() {
  std::string s;
  for (int i = 1; i < 1200; ++i) {
    s.push_back(static_cast<char>(i * 37 + (i >> 3)));
    auto t = Base64::encode(s.data(), s.size());
    if (Base64::decode(t.data(), t.size()) != s) { std::printf("%d bytes do not come back\n", i); return 1; }
  }
}
''')
S["c20-shared-engine"] = dict(property="C20", needs="two threads making identifiers at the same time",
 breaks="the generator's state is one for all threads: unsynchronized updates hand the same identifier to two threads",
 edits=[("src/common/random.cpp", "  static thread_local FastRandomNumberGenerator engine_;", "  static FastRandomNumberGenerator engine_;"),
        ("src/common/random.cpp", "thread_local FastRandomNumberGenerator TlsRandomNumberGenerator::engine_{};", "FastRandomNumberGenerator TlsRandomNumberGenerator::engine_{};")],
 demo=r'''
#include "common/random.h"
#include <algorithm>
#include <cstdio>
#include <thread>
#include <vector>
using namespace lightstep;
int main() {
  const void* here = &GetRandomNumberGenerator();
  bool shared = false;
  std::vector<uint64_t> all;
  std::vector<std::vector<uint64_t>> ids(8);
  std::vector<std::thread> ts;
  for (auto& v : ids) ts.emplace_back([&] {
    if (&GetRandomNumberGenerator() == here) shared = true;
    v.reserve(500000);
    for (int i = 0; i < 500000; ++i) v.push_back(GenerateId());
  });
  for (auto& t : ts) t.join();
  for (auto& v : ids) all.insert(all.end(), v.begin(), v.end());
  std::sort(all.begin(), all.end());
  if (std::adjacent_find(all.begin(), all.end()) != all.end()) { std::printf("two identifiers are the same\n"); return 1; }
  if (shared) { std::printf("threads share a generator\n"); return 1; }
}
''')
S["c32-double"] = dict(property="C32", needs="a timestamp whose nanoseconds do not fit the 53 bits of a double's mantissa",
 breaks="nanoseconds go through floating point, so the instant is rounded by up to a few hundred nanoseconds",
 edits=[("src/common/timestamp.cpp", "      std::chrono::duration_cast<std::chrono::nanoseconds>(\n          time_point.time_since_epoch())", "      std::chrono::duration<double, std::nano>(time_point.time_since_epoch())")],
 demo=r'''
#include "common/timestamp.h"
#include <cstdio>
#include <initializer_list>
using namespace lightstep;
int main() {
  using namespace std::chrono;
  for (int64_t n : {1600000000123456789ll, 1700000000000000001ll, 1234567890987654321ll}) {
    int64_t delta = 1599990000000000003ll;
    system_clock::time_point t{duration_cast<system_clock::duration>(nanoseconds{n})};
    auto s = ToSteadyTimestamp(delta, t);
    if (ToSystemTimestamp(delta, s) != t) { std::printf("%lld does not come back\n", (long long)n); return 1; }
    if (duration_cast<nanoseconds>(s.time_since_epoch()).count() != n - delta) { std::printf("%lld is shifted\n", (long long)n); return 1; }
  }
}
''')
S["c34-compare-short"] = dict(property="C34", needs="two IPv6 addresses that agree in their first eight bytes",
 breaks="only as many bytes as an IPv4 address has are compared, so different IPv6 addresses compare equal",
 edits=[("src/network/ip_address.cpp", "                       sizeof(lhs.ipv6_address())) == 0;", "                       sizeof(sockaddr_in)) == 0;")],
 demo=r'''
#include "network/ip_address.h"
#include <cstdio>
using namespace lightstep;
int main() {
  const char* all[] = {"::1", "::2", "2001:db8::1", "2001:db8::2", "2001:db9::1", "1.2.3.4", "1.2.3.5"};
  for (auto a : all) for (auto b : all) {
    if ((IpAddress(a, 80) == IpAddress(b, 80)) != (a == b)) { std::printf("%s and %s are confused\n", a, b); return 1; }
  }
}
''')
S["c11-assign-leaks"] = dict(property="C11", needs="a socket assigned to one that already owns a descriptor",
 breaks="the descriptor owned before the assignment is never closed when the one assigned is invalid",
 edits=[("src/network/socket.cpp", "  assert(this != &other);\n  Free();", "  assert(this != &other);\n  if (other.file_descriptor_ != InvalidSocket) {\n    Free();\n  }")],
 demo=r'''
#include "network/socket.h"
#include <cstdio>
#include <fcntl.h>
using namespace lightstep;
int main() {
  int fd;
  {
    Socket a;
    fd = a.file_descriptor();
    a = Socket{InvalidSocket};
  }
  if (fcntl(fd, F_GETFD) != -1) { std::printf("descriptor %d is still open\n", fd); return 1; }
}
''')
S["c13-nonblocking-late"] = dict(property="C13", needs="a satellite that is slow to accept a connection",
 breaks="the connection is attempted while the socket still blocks, so the sending loop stands still until the peer answers",
 edits=[("src/network/socket.cpp", "  socket.SetNonblocking();\n  socket.SetReuseAddress();\n  int rcode;", "  socket.SetReuseAddress();\n  int rcode;"),
        ("src/network/socket.cpp", "  if (rcode == 0) {\n    return socket;\n  }\n  auto error_code", "  if (rcode == 0) {\n    socket.SetNonblocking();\n    return socket;\n  }\n  auto error_code")],
 demo=r'''
#include "network/socket.h"
#include <arpa/inet.h>
#include <cstdio>
#include <csignal>
#include <fcntl.h>
#include <unistd.h>
#include <vector>
using namespace lightstep;
static void Late(int) { const char m[] = "Connect blocks\n"; if (write(1, m, sizeof m - 1)) {} _exit(1); }
int main() {
  int l = ::socket(AF_INET, SOCK_STREAM, 0);
  sockaddr_in a{};
  a.sin_family = AF_INET;
  a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  socklen_t n = sizeof a;
  if (bind(l, (sockaddr*)&a, sizeof a) || listen(l, 0) || getsockname(l, (sockaddr*)&a, &n)) return 3;
  for (int i = 0; i < 8; ++i) {
    int s = ::socket(AF_INET, SOCK_STREAM, 0);
    fcntl(s, F_SETFL, O_NONBLOCK);
    (void)!::connect(s, (sockaddr*)&a, sizeof a);
  }
  signal(SIGALRM, Late);
  alarm(10);
  IpAddress ip{reinterpret_cast<const sockaddr&>(a)};
  std::vector<Socket> all;
  for (int i = 0; i < 4; ++i) all.push_back(Connect(ip));
}
''')
S["c12-nonblocking-unchecked"] = dict(property="C12", needs="a system call that fails on the socket",
 breaks="the failure value is not recognized, so a socket that could not be configured is used as if it were",
 edits=[("src/network/socket.cpp", "  auto rcode = SetSocketReuseAddress(file_descriptor_);\n  if (rcode == -1) {", "  auto rcode = SetSocketReuseAddress(file_descriptor_);\n  if (rcode > 0) {")],
 demo=r'''
#include "network/socket.h"
#include <cstdio>
#include <stdexcept>
#include <unistd.h>
using namespace lightstep;
int main() {
  int p[2];
  if (pipe(p)) return 3;
  Socket s{p[0]};
  try { s.SetReuseAddress(); } catch (const std::runtime_error&) { return 0; }
  std::printf("the failure went unnoticed\n");
  return 1;
}
''')
S["c33-find-by-order"] = dict(property="C33", needs="a lookup of an absent key that is smaller than some key present",
 breaks="the lookup returns the next larger entry for a key that was never inserted",
 edits=[("src/common/flat_map.h", "    if (iter != data_.end() && iter->first == key) {", "    if (iter != data_.end() && !Comp{}(iter->first, key)) {")],
 demo=r'''
#include "common/flat_map.h"
#include <cstdio>
using namespace lightstep;
int main() {
  FlatMap<int, int> m;
  for (int k : {10, 4, 8, 2, 6}) m.insert_or_assign(std::move(k), 1);
  for (int k = 0; k < 12; ++k) {
    bool found = m.find(k) != m.end();
    if (found != (k >= 2 && k <= 10 && k % 2 == 0)) { std::printf("%d found %d\n", k, found); return 1; }
  }
}
''')
S["c08-backup-capacity"] = dict(property="C08", needs="a stream whose last block is backed up to empty and then written to again",
 breaks="a block backed up to nothing is given up by the next write without its size being restored",
 edits=[("src/common/chained_stream.cpp", "    num_bytes_written_ += *size;\n    current_block_position_ = BlockSize;\n    current_block_->size = BlockSize;\n    return true;", "    num_bytes_written_ += *size;\n    current_block_->size += *size - (current_block_position_ == 0 ? 1 : 0) * 0;\n    current_block_position_ = BlockSize;\n    return true;")],
 demo="") if False else None
S = {k: v for k, v in S.items() if v}
