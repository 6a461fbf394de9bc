#pragma once
#include <new>
#include <system_error>
#include <type_traits>
#include <utility>
#include <opentracing/version.h>
namespace opentracing {
BEGIN_OPENTRACING_ABI_NAMESPACE
struct unexpected_type {
  std::error_code ec;
  unexpected_type() = default;
  explicit unexpected_type(std::error_code e) : ec(e) {}
  const std::error_code& value() const noexcept { return ec; }
};
inline unexpected_type make_unexpected(std::error_code e) { return unexpected_type(e); }

template <class T>
class expected {
 public:
  expected() : has_(true) { new (&storage_) T(); }
  template <class U, typename std::enable_if<
      std::is_convertible<U&&, T>::value &&
      !std::is_same<typename std::decay<U>::type, expected>::value &&
      !std::is_same<typename std::decay<U>::type, unexpected_type>::value, int>::type = 0>
  expected(U&& u) : has_(true) { new (&storage_) T(std::forward<U>(u)); }
  expected(unexpected_type u) : has_(false), err_(u.ec) {}
  expected(const expected& o) : has_(o.has_), err_(o.err_) { if (has_) new (&storage_) T(*o); }
  expected(expected&& o) : has_(o.has_), err_(o.err_) { if (has_) new (&storage_) T(std::move(*o)); }
  expected& operator=(const expected& o) {
    if (this != &o) { destroy(); has_ = o.has_; err_ = o.err_; if (has_) new (&storage_) T(*o); }
    return *this;
  }
  expected& operator=(expected&& o) {
    if (this != &o) { destroy(); has_ = o.has_; err_ = o.err_; if (has_) new (&storage_) T(std::move(*o)); }
    return *this;
  }
  ~expected() { destroy(); }
  explicit operator bool() const noexcept { return has_; }
  bool has_value() const noexcept { return has_; }
  T& operator*() & { return *reinterpret_cast<T*>(&storage_); }
  const T& operator*() const& { return *reinterpret_cast<const T*>(&storage_); }
  T&& operator*() && { return std::move(*reinterpret_cast<T*>(&storage_)); }
  T* operator->() { return reinterpret_cast<T*>(&storage_); }
  const T* operator->() const { return reinterpret_cast<const T*>(&storage_); }
  T& value() { return **this; }
  const std::error_code& error() const noexcept { return err_; }
 private:
  void destroy() { if (has_) reinterpret_cast<T*>(&storage_)->~T(); }
  bool has_;
  std::error_code err_;
  typename std::aligned_storage<sizeof(T), alignof(T)>::type storage_;
};
template <>
class expected<void> {
 public:
  expected() : has_(true) {}
  expected(unexpected_type u) : has_(false), err_(u.ec) {}
  explicit operator bool() const noexcept { return has_; }
  bool has_value() const noexcept { return has_; }
  const std::error_code& error() const noexcept { return err_; }
 private:
  bool has_;
  std::error_code err_;
};
END_OPENTRACING_ABI_NAMESPACE
}
