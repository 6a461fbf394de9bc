// The plainest use of FunctionRef: if the richer uses do not build but this does, arguments are no longer passed on as given.
#include "common/function_ref.h"

namespace witness {
struct Plain {
  bool operator()(void* a, int b);
};
using PlainRef = lightstep::FunctionRef<bool(void*, int)>;
bool BindPlain(Plain& f, void* a, int b) {
  PlainRef r(f);
  return r(a, b);
}
}  // namespace witness
