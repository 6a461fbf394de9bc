#pragma once
#include <algorithm>
#include <cassert>
#include <cstring>
#include <cstddef>
#include <iterator>
#include <ostream>
#include <string>
#include <opentracing/version.h>
namespace opentracing {
BEGIN_OPENTRACING_ABI_NAMESPACE
class string_view {
 public:
  static const size_t npos = static_cast<size_t>(-1);
  string_view() noexcept : length_(0), data_(nullptr) {}
  string_view(const char* c) noexcept : length_(c ? std::strlen(c) : 0), data_(c) {}
  string_view(const char* c, size_t len) noexcept : length_(len), data_(c) {}
  string_view(const std::string& str) noexcept : length_(str.length()), data_(str.c_str()) {}
  operator std::string() const { return {data_, length_}; }
  const char* data() const noexcept { return data_; }
  bool empty() const noexcept { return length_ == 0; }
  size_t length() const noexcept { return length_; }
  size_t size() const noexcept { return length_; }
  const char* begin() const noexcept { return data_; }
  const char* end() const noexcept { return data_ + length_; }
  const char& operator[](size_t i) const noexcept { return data_[i]; }
 private:
  size_t length_;
  const char* data_;
};
inline bool operator==(string_view lhs, string_view rhs) noexcept {
  return lhs.length() == rhs.length() &&
         std::equal(lhs.data(), lhs.data() + lhs.length(), rhs.data());
}
inline bool operator==(string_view lhs, const char* rhs) noexcept { return lhs == string_view(rhs); }
inline bool operator==(const char* lhs, string_view rhs) noexcept { return string_view(lhs) == rhs; }
inline bool operator!=(string_view lhs, string_view rhs) noexcept { return !(lhs == rhs); }
inline bool operator!=(string_view lhs, const char* rhs) noexcept { return !(lhs == string_view(rhs)); }
inline bool operator!=(const char* lhs, string_view rhs) noexcept { return !(string_view(lhs) == rhs); }
inline std::ostream& operator<<(std::ostream& os, const string_view& ref) {
  return os.write(ref.data(), static_cast<std::streamsize>(ref.length()));
}
END_OPENTRACING_ABI_NAMESPACE
}
