#pragma once
// Stand-in for the circular buffer's ranges while the users of the buffer are analysed: a range is a number of
// elements known by index; what the real ranges do is the subject of the buffer's own rules.
#include <cstddef>
#include <type_traits>
#include <utility>
namespace verif {
void elem_begin(const void* range, size_t index, bool consumed) noexcept;
bool elem_is_full(const void* range, size_t index) noexcept;
void elem_full() noexcept;
bool elem_is_partial(const void* range, size_t index) noexcept;
void elem_partial() noexcept;
void elem_after() noexcept;
void iter_begin(const void* range) noexcept;
void iter_end(bool complete) noexcept;
void elem_end() noexcept;
void* elem_address(const void* range, size_t index) noexcept;
}  // namespace verif
namespace lightstep {
template <class T>
class CircularBufferRange {
 public:
  CircularBufferRange() noexcept = default;
  CircularBufferRange(const void* handle, size_t size, bool consumed) noexcept : handle_{handle}, size_{size}, consumed_{consumed} {}
  operator CircularBufferRange<const T>() const noexcept { return {handle_, size_, consumed_}; }
  template <class Callback>
  bool ForEach(Callback callback) const noexcept(noexcept(std::declval<Callback>()(std::declval<T&>()))) {
    verif::iter_begin(handle_);
    for (size_t i = 0; i < size_; ++i) {
      verif::elem_begin(handle_, i, consumed_);
      if (verif::elem_is_full(handle_, i)) verif::elem_full();
      else if (verif::elem_is_partial(handle_, i)) verif::elem_partial();
      else verif::elem_after();
      bool r = callback(*static_cast<T*>(verif::elem_address(handle_, i)));
      verif::elem_end();
      if (!r) return false;
    }
    return true;
  }
  size_t size() const noexcept { return size_; }
  bool empty() const noexcept { return size_ == 0; }
  CircularBufferRange Take(size_t n) const noexcept { return {handle_, n, consumed_}; }
 private:
  const void* handle_{nullptr};
  size_t size_{0};
  bool consumed_{false};
};
}  // namespace lightstep
