// An arbitrary carrier: any number of keys and values handed to the callback until it reports an error.
// The callback's target is fetched once, before the loop, so that it is known when the loop is analysed.
#include <functional>
#include <utility>
#include <opentracing/propagation.h>
namespace verif {
using Carrier = opentracing::TextMapReader;
using View = opentracing::string_view;
using Result = opentracing::expected<void>;
using Function = std::function<Result(View, View)>;
using Invoker = Result (*)(const std::_Any_data&, View&&, View&&);
Invoker Function::*invoker();
template <Invoker Function::*M>
struct Access {
  friend Invoker Function::*invoker() { return M; }
};
template struct Access<&Function::_M_invoker>;
bool carrier_more(const Carrier* s) noexcept;
void carrier_next(const Carrier* s, View* key, View* value) noexcept;
Result carrier_foreach(const Carrier* s, Function f) {
  Invoker target = f.*invoker();
  while (carrier_more(s)) {
    View k, v;
    carrier_next(s, &k, &v);
    Result r = target(*reinterpret_cast<const std::_Any_data*>(&f), std::move(k), std::move(v));
    if (!r) return r;
  }
  return {};
}
}  // namespace verif
