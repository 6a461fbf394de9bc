#pragma once
#include <cstdint>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>
#include <new>
#include <opentracing/string_view.h>
namespace opentracing {
BEGIN_OPENTRACING_ABI_NAMESPACE
class Value;
using Dictionary = std::unordered_map<std::string, Value>;
using Values = std::vector<Value>;
// A simplified variant<bool,double,int64,uint64,string,string_view,nullptr,const char*,Values,Dictionary>
class Value {
 public:
  enum class Kind { Bool, Double, Int, UInt, Str, View, Null, CStr, List, Dict };
  Value() noexcept : kind_(Kind::Null) {}
  Value(std::nullptr_t) noexcept : kind_(Kind::Null) {}
  template <class T, typename std::enable_if<std::is_same<bool, T>::value, int>::type = 0>
  Value(T t) noexcept : kind_(Kind::Bool), b_(t) {}
  template <class T, typename std::enable_if<std::is_floating_point<T>::value, int>::type = 0>
  Value(T t) noexcept : kind_(Kind::Double), d_(t) {}
  template <class T, typename std::enable_if<std::is_integral<T>::value && std::is_signed<T>::value &&
                                             !std::is_same<bool, T>::value, int>::type = 0>
  Value(T t) noexcept : kind_(Kind::Int), i_(t) {}
  template <class T, typename std::enable_if<std::is_integral<T>::value && std::is_unsigned<T>::value &&
                                             !std::is_same<bool, T>::value, int>::type = 0>
  Value(T t) noexcept : kind_(Kind::UInt), u_(t) {}
  Value(const std::string& s) : kind_(Kind::Str), s_(s) {}
  Value(std::string&& s) : kind_(Kind::Str), s_(std::move(s)) {}
  Value(string_view s) noexcept : kind_(Kind::View), v_(s) {}
  Value(const char* s) noexcept : kind_(Kind::CStr), c_(s) {}
  Value(const Values& l);
  Value(Values&& l);
  Value(const Dictionary& d);
  Value(Dictionary&& d);
  Value(const Value&);
  Value(Value&&);
  Value& operator=(const Value&);
  Value& operator=(Value&&);
  ~Value();
  Kind kind() const noexcept { return kind_; }
  template <class Visitor>
  static void visit(const Value& value, Visitor&& visitor);
  bool equals(const Value& o) const;
 private:
  Kind kind_;
  bool b_{};
  double d_{};
  int64_t i_{};
  uint64_t u_{};
  std::string s_;
  string_view v_;
  const char* c_{};
  Values* list_{};
  Dictionary* dict_{};
};
inline Value::Value(const Values& l) : kind_(Kind::List), list_(new Values(l)) {}
inline Value::Value(Values&& l) : kind_(Kind::List), list_(new Values(std::move(l))) {}
inline Value::Value(const Dictionary& d) : kind_(Kind::Dict), dict_(new Dictionary(d)) {}
inline Value::Value(Dictionary&& d) : kind_(Kind::Dict), dict_(new Dictionary(std::move(d))) {}
inline Value::Value(const Value& o)
    : kind_(o.kind_), b_(o.b_), d_(o.d_), i_(o.i_), u_(o.u_), s_(o.s_), v_(o.v_), c_(o.c_),
      list_(o.list_ ? new Values(*o.list_) : nullptr), dict_(o.dict_ ? new Dictionary(*o.dict_) : nullptr) {}
inline Value::Value(Value&& o)
    : kind_(o.kind_), b_(o.b_), d_(o.d_), i_(o.i_), u_(o.u_), s_(std::move(o.s_)), v_(o.v_), c_(o.c_),
      list_(o.list_), dict_(o.dict_) { o.list_ = nullptr; o.dict_ = nullptr; }
inline Value& Value::operator=(const Value& o) { Value t(o); return *this = std::move(t); }
inline Value& Value::operator=(Value&& o) {
  std::swap(kind_, o.kind_); std::swap(b_, o.b_); std::swap(d_, o.d_); std::swap(i_, o.i_);
  std::swap(u_, o.u_); std::swap(s_, o.s_); std::swap(v_, o.v_); std::swap(c_, o.c_);
  std::swap(list_, o.list_); std::swap(dict_, o.dict_); return *this;
}
inline Value::~Value() { delete list_; delete dict_; }
template <class Visitor>
void Value::visit(const Value& value, Visitor&& visitor) {
  switch (value.kind_) {
    case Kind::Bool: visitor(value.b_); break;
    case Kind::Double: visitor(value.d_); break;
    case Kind::Int: visitor(value.i_); break;
    case Kind::UInt: visitor(value.u_); break;
    case Kind::Str: visitor(value.s_); break;
    case Kind::View: visitor(value.v_); break;
    case Kind::Null: visitor(nullptr); break;
    case Kind::CStr: visitor(value.c_); break;
    case Kind::List: visitor(*value.list_); break;
    case Kind::Dict: visitor(*value.dict_); break;
  }
}
inline bool Value::equals(const Value& o) const {
  if (kind_ != o.kind_) return false;
  switch (kind_) {
    case Kind::Bool: return b_ == o.b_;
    case Kind::Double: return d_ == o.d_;
    case Kind::Int: return i_ == o.i_;
    case Kind::UInt: return u_ == o.u_;
    case Kind::Str: return s_ == o.s_;
    case Kind::View: return v_ == o.v_;
    case Kind::Null: return true;
    case Kind::CStr: return c_ == o.c_;
    default: return false;
  }
}
template <class Visitor>
void apply_visitor(Visitor&& visitor, const Value& value) { Value::visit(value, std::forward<Visitor>(visitor)); }
inline bool operator==(const Value& a, const Value& b) { return a.equals(b); }
inline bool operator!=(const Value& a, const Value& b) { return !a.equals(b); }
END_OPENTRACING_ABI_NAMESPACE
}
