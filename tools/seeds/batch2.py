S = {}
S["c01-head-before-tail"] = dict(property="C01",
 needs="between a producer's two counter reads another producer adds a span and the consumer drains it",
 breaks="the producer's view of the tail may be newer than its view of the head, so a nearly empty buffer is reported full and the span is dropped",
 edits=[("src/common/circular_buffer.h", "      int64_t tail = tail_;\n      int64_t head = head_;\n", "      int64_t head = head_;\n      int64_t tail = tail_;\n")],
 demo=r'''
#include "common/circular_buffer.h"
#include <atomic>
#include <chrono>
#include <cstdio>
#include <thread>
#include <vector>
using namespace lightstep;
// Never more than 7 spans are outstanding and fewer are submitted than the buffer can hold, so none may be refused.
int main() {
  auto deadline = std::chrono::steady_clock::now() + std::chrono::seconds(60);
  const int P = 7, N = 100000;
  while (std::chrono::steady_clock::now() < deadline) {
    CircularBuffer<int> buffer{P * N + 10};
    std::atomic<bool> pending[P]; for (auto& p : pending) p = false;
    std::atomic<int> running{P}; std::atomic<bool> refused{false};
    std::vector<std::thread> ts;
    for (int p = 0; p < P; ++p) ts.emplace_back([&, p] {
      for (int k = 0; k < N && !refused; ++k) {
        while (pending[p].load(std::memory_order_acquire)) std::this_thread::yield();
        pending[p] = true;
        std::unique_ptr<int> v{new int{p}};
        if (!buffer.Add(v)) refused = true;
      }
      --running;
    });
    while (running > 0)
      buffer.Consume(buffer.size(), [&](CircularBufferRange<AtomicUniquePtr<int>> r) noexcept {
        r.ForEach([&](AtomicUniquePtr<int>& x) noexcept { std::unique_ptr<int> v; x.Swap(v); pending[*v].store(false, std::memory_order_release); return true; });
      });
    for (auto& t : ts) t.join();
    if (refused) { std::puts("a span was refused although the buffer was nearly empty"); return 1; }
    static int rounds = 0; if (++rounds == 12) break;
  }
}
''')
