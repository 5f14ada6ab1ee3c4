// C33: runtime type matching and overload sets
#include "sx.h"
#include "utl/match.h"
#include "utl/overloaded.h"
#include <string>
#include <variant>
#include <stdexcept>
#include <tuple>
#include <utility>

struct base { virtual ~base() = default; int id_{0}; };
struct left : virtual base { int l_{0}; };
struct right : virtual base { int r_{0}; };
struct both final : left, right { int b_{0}; };
struct one : base { int o_{0}; };
struct two : one { int t_{0}; };           // derived from another candidate
struct pad { virtual ~pad() = default; int p_{0}; };
struct multi : pad, base { int m_{0}; };   // base subobject not at offset 0
struct other : base {};

static unsigned calls;
enum { LEFT = 1, RIGHT, BOTH, ONE, TWO, MULTI, BASE };
template <typename... Fn>
static int run(base* p, Fn&&... f) {
  calls = 0;
  try {
    auto const r = utl::match(p, std::forward<Fn>(f)...);
    sx_assert(calls == 1, "exactly one handler");
    return r;
  } catch (std::runtime_error const&) {
    sx_assert(calls == 0, "no handler before the exception");
    return 0;
  }
}
static void classes() {
  auto const dyn = sx::choose("dynamic type", 8);
  int const v = sx::any<int>("v");
  both bo; one on; two tw; multi mu; other ot; left le; right ri; base ba;
  base* p = nullptr;
  switch (dyn) {
    case 0: p = &bo; bo.l_ = v; bo.r_ = v; bo.b_ = v; break;
    case 1: p = &on; on.o_ = v; break;
    case 2: p = &tw; tw.o_ = v; tw.t_ = v; break;
    case 3: p = &mu; mu.m_ = v; break;
    case 4: p = &ot; break;
    case 5: p = &le; le.l_ = v; break;
    case 6: p = &ri; ri.r_ = v; break;
    default: p = &ba;
  }
  auto hl = [&](left* x) { ++calls; sx_assert(x->l_ == v, "converted pointer"); return LEFT; };
  auto hr = [&](right* x) { ++calls; sx_assert(x->r_ == v, "converted pointer"); return RIGHT; };
  auto hb = [&](both* x) { ++calls; sx_assert(x->b_ == v && x == &bo, "converted pointer"); return BOTH; };
  auto ho = [&](one* x) { ++calls; sx_assert(x->o_ == v, "converted pointer"); return ONE; };
  auto ht = [&](two* x) { ++calls; sx_assert(x->t_ == v && x == &tw, "converted pointer"); return TWO; };
  auto hm = [&](multi* x) { ++calls; sx_assert(x->m_ == v && x == &mu, "converted pointer"); return MULTI; };
  auto hz = [&](base* x) { ++calls; sx_assert(x == p, "converted pointer"); return BASE; };
  bool const is_l = dyn == 0 || dyn == 5, is_r = dyn == 0 || dyn == 6, is_b = dyn == 0, is_o = dyn == 1 || dyn == 2, is_t = dyn == 2, is_m = dyn == 3;
  int got = -1, want = 0;
  switch (sx::choose("order", 11)) {
    case 0: got = run(p, hl, hr, hb); want = is_l ? LEFT : is_r ? RIGHT : 0; break;
    case 1: got = run(p, hb, hr, hl); want = is_b ? BOTH : is_r ? RIGHT : is_l ? LEFT : 0; break;
    case 2: got = run(p, ho, ht); want = is_o ? ONE : 0; break;
    case 3: got = run(p, ht, ho); want = is_t ? TWO : is_o ? ONE : 0; break;
    case 4: got = run(p, hm); want = is_m ? MULTI : 0; break;
    case 5: got = run(p, hm, ht, hr, ho, hb, hl); want = is_m ? MULTI : is_t ? TWO : is_r ? RIGHT : is_o ? ONE : is_l ? LEFT : 0; break;
    case 8: got = run(p, hz); want = BASE; break;
    case 9: got = run(p, ht, hl, hz, ho); want = is_t ? TWO : is_l ? LEFT : BASE; break;
    case 10: got = run(p, ho, hz); want = is_o ? ONE : BASE; break;
    case 6: got = run(p, ht, hb, hm); want = is_t ? TWO : is_b ? BOTH : is_m ? MULTI : 0; break;
    default: got = run(p, hr, hl, ho, hm, ht); want = is_r ? RIGHT : is_l ? LEFT : is_o ? ONE : is_m ? MULTI : 0; break;
  }
  sx_assert(got == want, "first handler that fits");
  if (want == 0) sx_reach("none fits"); else sx_reach("matched");
}
static void consts() {  // pointers to const and handlers returning other types
  two tw;
  tw.t_ = sx::any<int>("t");
  other ot;
  base const* p = sx::choose("which", 2) ? static_cast<base const*>(&tw) : &ot;
  auto const s = [&]() -> std::string {
    try {
      return utl::match(p, [](multi const*) { return std::string{"m"}; }, [](two const* x) { return std::string(20, static_cast<char>(x->t_)); });
    } catch (std::runtime_error const&) { return ""; }
  }();
  if (p == &ot) sx_assert(s.empty(), "nothing fits");
  else { sx_assert(s.size() == 20, "result"); for (auto c : s) sx_assert(c == static_cast<char>(tw.t_), "result contents"); }
  base const* null = nullptr;
  bool thrown = false;
  try { (void)utl::match(null, [](two const*) { return 1; }); } catch (std::runtime_error const&) { thrown = true; }
  sx_assert(thrown, "no object fits nothing");
  sx_reach("const");
}
static void overloads() {
  int i_calls = 0, s_calls = 0, d_calls = 0, seen = 0;
  auto o = utl::overloaded{[&](int& i) { ++i_calls; seen = i; i = 5; }, [&](std::string const& s) { ++s_calls; seen = static_cast<int>(s.size()); }, [&](double) { ++d_calls; }};
  int x = sx::any<int>("x");
  auto const x0 = x;
  std::variant<int, std::string, double, char, unsigned> v;
  auto const k = sx::choose("alternative", 5);
  switch (k) {
    case 0: v = x; break;
    case 1: v = std::string("abc"); break;
    case 2: v = 2.5; break;
    case 3: v = 'c'; break;
    default: v = 3U;
  }
  std::visit(o, v);
  sx_assert(i_calls == (k == 0) && s_calls == (k == 1) && d_calls == (k == 2), "handler of the type, others ignored");
  if (k == 0) sx_assert(seen == x0 && std::get<int>(v) == 5, "by reference");
  if (k == 1) sx_assert(seen == 3, "by const reference");
  sx_reach("overloads");
}
extern "C" void sx_main() {
  switch (sx::choose("mode", 3)) {
    case 0: classes(); break;
    case 1: consts(); break;
    default: overloads();
  }
}
