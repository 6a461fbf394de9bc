#pragma once
#include <memory>
namespace verif {
void* slot_get(const void* slot) noexcept;
void* slot_exchange(void* slot, void* value) noexcept;
void slot_reset(void* slot, void* value) noexcept;
bool slot_swap_if_null(void* slot, void* value) noexcept;
}  // namespace verif
namespace lightstep {
template <class T>
class AtomicUniquePtr {
 public:
  T& operator*() const noexcept { return *Get(); }
  T* operator->() const noexcept { return Get(); }
  T* Get() const noexcept { return static_cast<T*>(verif::slot_get(this)); }
  bool IsNull() const noexcept { return Get() == nullptr; }
  bool SwapIfNull(std::unique_ptr<T>& owner) noexcept {
    if (!verif::slot_swap_if_null(this, owner.get())) return false;
    owner.release();
    return true;
  }
  void Swap(std::unique_ptr<T>& ptr) noexcept { ptr.reset(static_cast<T*>(verif::slot_exchange(this, ptr.release()))); }
  void Reset(T* ptr = nullptr) noexcept { verif::slot_reset(this, ptr); }
 private:
  void* opaque_;
};
}  // namespace lightstep
