#pragma once
#include <atomic>
#include <cstdint>
#include <memory>
#include "common/atomic_unique_ptr.h"
#include "common/circular_buffer_range.h"
namespace verif {
size_t ring_size(const void* ring) noexcept;
bool ring_add(void* ring, void* element) noexcept;
void ring_consume_begin(void* ring, size_t n) noexcept;
void ring_consume_end(void* ring) noexcept;
void ring_consume_all(void* ring, size_t n) noexcept;
size_t ring_max(const void* ring) noexcept;
int64_t ring_produced(const void* ring) noexcept;
int64_t ring_consumed(const void* ring) noexcept;
void* ring_handle(const void* ring) noexcept;
void ring_peeked(const void* ring) noexcept;
}  // namespace verif
namespace lightstep {
template <class T>
class CircularBuffer {
 public:
  explicit CircularBuffer(size_t max_size) noexcept { (void)max_size; }
  CircularBufferRange<const AtomicUniquePtr<T>> Peek() const noexcept {
    verif::ring_peeked(this);
    return {verif::ring_handle(this), verif::ring_size(this), false};
  }
  template <class Callback>
  void Consume(size_t n, Callback callback) noexcept {
    verif::ring_consume_begin(this, n);
    CircularBufferRange<AtomicUniquePtr<T>> range{verif::ring_handle(this), n, true};
    callback(range);
    verif::ring_consume_end(this);
  }
  void Consume(size_t n) noexcept { verif::ring_consume_all(this, n); }
  bool Add(std::unique_ptr<T>& ptr) noexcept {
    if (!verif::ring_add(this, ptr.get())) return false;
    ptr.release();
    return true;
  }
  void Clear() noexcept { Consume(size()); }
  size_t max_size() const noexcept { return verif::ring_max(this); }
  bool empty() const noexcept { return size() == 0; }
  size_t size() const noexcept { return verif::ring_size(this); }
  int64_t consumption_count() const noexcept { return verif::ring_consumed(this); }
  int64_t production_count() const noexcept { return verif::ring_produced(this); }
 private:
  void* opaque_;
};
}  // namespace lightstep
