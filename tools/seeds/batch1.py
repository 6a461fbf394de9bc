S = {}
S["c05-reposition-in-block"] = dict(property="C05",
 needs="two partial writes that both stop inside the same block of a span",
 breaks="the second stop is recorded relative to the block's start instead of to the first stop: bytes are sent again",
 edits=[("src/common/chained_stream.cpp", "    fragment_position_ += position;\n    assert", "    fragment_position_ = std::max(fragment_position_, position);\n    assert"), ("src/common/chained_stream.cpp", "#include <cassert>", "#include <algorithm>\n#include <cassert>")],
 demo=r'''
#include "common/chained_stream.h"
#include <google/protobuf/io/coded_stream.h>
#include <cstdio>
#include <string>
using namespace lightstep;
int main() {
  ChainedStream s; std::string all;
  { google::protobuf::io::CodedOutputStream o{&s}; for (int i = 0; i < 700; ++i) { std::string x = std::to_string(i) + ","; o.WriteString(x); all += x; } }
  s.CloseOutput();
  std::string got; int step = 1;
  while (true) {
    std::string rest;
    static_cast<FragmentInputStream&>(s).ForEachFragment([&](void* d, int n) { rest.append(static_cast<char*>(d), n); return true; });
    if (got + rest != all) { std::printf("after %zu bytes the rest is wrong\n", got.size()); return 1; }
    int n = std::min<int>(step, rest.size()); step = step % 37 + 1;
    got += rest.substr(0, n);
    if (Consume({&s}, n)) break;
  }
  return got == all ? 0 : 1;
}
''')
S["c06-batch-after-short-write"] = dict(property="C06",
 needs="more fragments than one system call may take, and a system call that accepts only part of its batch",
 breaks="the next batch is submitted although the previous one was short, so later bytes are sent before earlier ones",
 edits=[("src/network/vector_write.cpp", "    return !(error || blocked);", "    return !(error || (blocked && rcode_was_negative));"), ("src/network/vector_write.cpp", "  bool blocked = false;\n", "  bool blocked = false;\n  bool rcode_was_negative = false;\n"), ("src/network/vector_write.cpp", "        blocked = true;\n      } else {", "        blocked = true;\n        rcode_was_negative = true;\n      } else {")],
 demo=r'''
#include "network/vector_write.h"
#include "common/fragment_array_input_stream.h"
#include <fcntl.h>
#include <sys/socket.h>
#include <unistd.h>
#include <cstdio>
#include <string>
#include <vector>
#include <sys/socket.h>
#include <sys/uio.h>
#include <thread>
#include <dlfcn.h>
using namespace lightstep;
// The system accepts only part of one batch: everything else is sent later, in order.
static int calls = 0; static std::string sent;
extern "C" ssize_t writev(int, const struct iovec* v, int n) {
  size_t total = 0; for (int i = 0; i < n; ++i) total += v[i].iov_len;
  size_t take = calls++ == 0 ? total / 2 : total;
  size_t left = take;
  for (int i = 0; i < n && left; ++i) { size_t k = std::min(left, v[i].iov_len); sent.append(static_cast<char*>(v[i].iov_base), k); left -= k; }
  return static_cast<ssize_t>(take);
}
extern "C" ssize_t sendmsg(int s, const struct msghdr* m, int) { return writev(s, m->msg_iov, static_cast<int>(m->msg_iovlen)); }
struct Many : FragmentInputStream {
  std::vector<std::string> d; int at = 0, pos = 0;
  int num_fragments() const noexcept override { return static_cast<int>(d.size()) - at; }
  bool ForEachFragment(Callback cb) const noexcept override {
    for (int i = at; i < static_cast<int>(d.size()); ++i) { int o = i == at ? pos : 0; if (!cb(const_cast<char*>(d[i].data()) + o, static_cast<int>(d[i].size()) - o)) return false; }
    return true;
  }
  void Clear() noexcept override { at = static_cast<int>(d.size()); pos = 0; }
  void Seek(int i, int p) noexcept override { if (i == 0) pos += p; else { at += i; pos = p; } }
};
int main() {
  Many m; std::string all;
  for (int i = 0; i < 5000; ++i) { m.d.push_back("<" + std::to_string(i) + ">"); all += m.d.back(); }
  for (int k = 0; k < 100 && !Write(3, {&m}); ++k) {}
  if (sent != all) { std::printf("sent %zu bytes of %zu or in another order\n", sent.size(), all.size()); return 1; }
}
''')
S["c03-boundary-kept"] = dict(property="C03",
 needs="a partial send that stops exactly between two blocks of a span that takes several blocks",
 breaks="a stop between two blocks of one span is taken for a stop between two spans, so the span is sent again from its start",
 edits=[("src/recorder/stream_recorder/span_stream.cpp", "    if (fragment_index == 0 && position == 0) {", "    if (position == 0) {")],
 demo=r'''
#include "recorder/stream_recorder/span_stream.h"
#include <google/protobuf/io/coded_stream.h>
#include "tracer/counting_metrics_observer.h"
#include <cstdio>
#include <string>
using namespace lightstep;
static std::unique_ptr<ChainedStream> Make(int n, char c, std::string& all) {
  std::unique_ptr<ChainedStream> s{new ChainedStream{}};
  { google::protobuf::io::CodedOutputStream o{s.get()}; std::string x(n, c); o.WriteString(x); all += x; }
  s->CloseOutput();
  return s;
}
static std::string Text(const FragmentInputStream& s) {
  std::string r; s.ForEachFragment([&](void* d, int n) { r.append(static_cast<char*>(d), n); return true; }); return r;
}
int main() {
  for (int cut = 1; cut < 1500; ++cut) {
    CountingMetricsObserver o; MetricsTracker metrics{o};
    CircularBuffer<ChainedStream> buffer{10}; std::string all;
    for (int i = 0; i < 3; ++i) { auto s = Make(100 + 600 * (i % 2), static_cast<char>('a' + i), all); if (!buffer.Add(s)) return 2; }
    SpanStream stream{buffer, metrics};
    stream.Allot();
    std::string sent = Text(stream).substr(0, cut);
    if (cut >= static_cast<int>(all.size())) break;
    if (Consume({&stream}, cut)) return 1;
    auto rem = stream.ConsumeRemnant();
    if (rem != nullptr) sent += Text(*rem);
    stream.Allot();
    sent += Text(stream);
    if (sent != all) { std::printf("cut at %d: %zu bytes for %zu\n", cut, sent.size(), all.size()); return 1; }
    stream.Clear();
  }
}
''')
S["c04-consume-race"] = dict(property="C04",
 needs="a thread drops a span between the two halves of taking the count",
 breaks="taking the dropped count is no longer one atomic step: drops counted in between are erased",
 edits=[("src/recorder/metrics_tracker.cpp", "  return num_dropped_spans_.exchange(0);", "  int result = num_dropped_spans_;\n  if (result != 0) {\n    num_dropped_spans_ = 0;\n  }\n  return result;")],
 demo=r'''
#include "recorder/metrics_tracker.h"
#include "tracer/counting_metrics_observer.h"
#include <cstdio>
#include <thread>
#include <vector>
using namespace lightstep;
int main() {
  for (int round = 0; round < 40; ++round) {
    CountingMetricsObserver o; MetricsTracker m{o}; long total = 0; std::atomic<int> running{4};
    std::vector<std::thread> t;
    for (int i = 0; i < 4; ++i) t.emplace_back([&] { for (int k = 0; k < 100000; ++k) m.OnSpansDropped(1); --running; });
    while (running > 0) { int n = m.ConsumeDroppedSpans(); if (n % 3 == 0) m.UnconsumeDroppedSpans(n); else total += n; }
    for (auto& x : t) x.join();
    total += m.ConsumeDroppedSpans();
    if (total != 400000) { std::printf("%ld of 400000 drops counted\n", total); return 1; }
  }
}
''')
S["c31-last-index"] = dict(property="C31",
 needs="a callback that stops the traversal early, and a later traversal of the same object",
 breaks="after a traversal was stopped early a later one repeats one index and skips another",
 edits=[("src/common/random_traverser.cpp", "    if (!callback(indexes_[i])) {\n      return false;\n    }", "    if (!callback(indexes_[i])) {\n      indexes_[i] = indexes_[0];\n      return false;\n    }")],
 demo=r'''
#include "common/random_traverser.h"
#include <cstdio>
#include <set>
using namespace lightstep;
int main() {
  for (int n = 0; n < 30; ++n) {
    RandomTraverser t{n};
    for (int k = 0; k < 200; ++k) {
      int stop = k % 3 == 0 ? k % (n + 1) : -1; int c = 0; std::multiset<int> seen;
      t.ForEachIndex([&](int i) { seen.insert(i); return c++ != stop; });
      std::set<int> u(seen.begin(), seen.end());
      if (u.size() != seen.size() || (stop < 0 && static_cast<int>(u.size()) != n)) { std::printf("n=%d: an index is repeated or skipped\n", n); return 1; }
      for (int i : u) if (i < 0 || i >= n) return 1;
    }
  }
}
''')
S["c07-empty-header-block"] = dict(property="C07",
 needs="a span whose serialization was closed without anything written, in a sequence with others",
 breaks="an empty span counts no fragments but is still offered when iterating",
 edits=[("src/common/chained_stream.cpp", "  if (num_bytes_written_ == 0) {\n    return true;\n  }\n\n  auto block = current_block_;", "  auto block = current_block_;\n  if (block == nullptr) {\n    return true;\n  }")],
 demo=r'''
#include "common/chained_stream.h"
#include <cstdio>
using namespace lightstep;
int main() {
  ChainedStream s; s.CloseOutput();
  int n = 0; static_cast<FragmentInputStream&>(s).ForEachFragment([&](void*, int) { ++n; return true; });
  if (n != s.num_fragments()) { std::printf("%d fragments offered, %d counted\n", n, s.num_fragments()); return 1; }
}
''')
