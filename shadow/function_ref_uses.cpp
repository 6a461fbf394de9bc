// Uses of FunctionRef of every kind, so that its templates can be analysed. Nothing here is ever run.
#include "common/function_ref.h"

#include <new>
#include <utility>

namespace witness {
struct Value {
  Value(Value&&) noexcept;
  Value(const Value&) = delete;
  ~Value();
  void* p;
};
struct Callable {
  int operator()(int a, Value&& b, const void*& c);
};
int Function(int a, Value&& b, const void*& c);

using Ref = lightstep::FunctionRef<int(int, Value&&, const void*&)>;
using VoidRef = lightstep::FunctionRef<void(long, const char*)>;
struct VoidCallable {
  void operator()(long a, const char* b) noexcept;
};
using NoArgs = lightstep::FunctionRef<void*()>;
struct NoArgsCallable {
  void* operator()();
};

using Pointer = int (*)(int, Value&&, const void*&);

// making a reference and calling it: what is called, and with what
int BindCallable(Callable& f, int a, Value&& b, const void*& c) {
  Ref r(f);
  return r(a, std::move(b), c);
}
int BindTemporary(Callable&& f, int a, Value&& b, const void*& c) {
  Ref r(std::move(f));
  return r(a, std::move(b), c);
}
void BindVoid(VoidCallable& f, long a, const char* b) {
  VoidRef r(f);
  r(a, b);
}
void* BindNoArgs(NoArgsCallable& f) {
  NoArgs r(f);
  return r();
}
int BindFunction(int a, Value&& b, const void*& c) {
  Ref r(Function);
  return r(a, std::move(b), c);
}
int BindPointer(Pointer f, int a, Value&& b, const void*& c) {
  if (f == nullptr) __builtin_unreachable();
  Ref r(f);
  return r(a, std::move(b), c);
}
int BindCopy(Callable& f, int a, Value&& b, const void*& c) {
  Ref r(f);
  const Ref s(r);
  Ref t(s);
  Ref u(std::move(t));
  return u(a, std::move(b), c);
}
// whether there is something to call
bool TestCallable(Callable& f) { return static_cast<bool>(Ref(f)); }
bool TestPointer(Pointer f) { return static_cast<bool>(Ref(f)); }
bool TestNothing() { return static_cast<bool>(Ref(nullptr)); }
// copying copies what is referred to and refers to nothing else
void CopyConst(const Ref& f, Ref* out) { new (out) Ref(f); }
void CopyPlain(Ref& f, Ref* out) { new (out) Ref(f); }
void CopyMoved(Ref&& f, Ref* out) { new (out) Ref(std::move(f)); }
extern const unsigned long Size;
const unsigned long Size = sizeof(Ref);
}  // namespace witness
