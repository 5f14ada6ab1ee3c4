// C19: is_uniform
#include "sx.h"
#include "utl/is_uniform.h"
#include <list>
#include <vector>

struct E {
  int v;
  unsigned id;
  bool operator!=(E const& o) const { return v != o.v; }
  bool operator==(E const& o) const { return v == o.v; }
};
template <typename C>
static void run(std::vector<E> const& x, unsigned form) {
  C c(x.begin(), x.end());
  auto const fn = [](E const& e) { return e.v / 16; };
  bool r = false;
  switch (form) {
    case 0: r = utl::is_uniform(c); break;
    case 1: { auto a = c.begin(); auto b = c.end(); r = utl::is_uniform(a, b); sx_assert(a == c.begin() && b == c.end(), "iterators unchanged"); break; }
    case 2: r = utl::is_uniform(c, fn); break;
    case 3: r = utl::is_uniform(c.begin(), c.end(), fn); break;
    case 4: { auto const& cc = c; r = utl::is_uniform(cc); break; }
  }
  bool all = true;
  bool const pred = form == 2 || form == 3;
  for (size_t i = 1; i < x.size(); ++i) all &= pred ? fn(x[i]) == fn(x[0]) : x[i].v == x[0].v;
  sx_assert(r == all, "true exactly if all agree");
  unsigned i = 0;
  for (auto const& e : c) { sx_assert(e.v == x[i].v && e.id == i, "elements unchanged"); ++i; }
  if (x.empty()) sx_reach("empty");
  if (x.size() > 1) { if (r) sx_reach("uniform"); else sx_reach("not uniform"); }
  sx_observe(r);
}
extern "C" void sx_main() {
  unsigned const big = sx::param("big", 0);
  std::vector<E> x(big ? big : sx::choose("n", sx::param("n", 4) + 1));
  if (big) {  // all the same, but one
    int const v = sx::any<int>("v");
    for (unsigned i = 0; i < big; ++i) x[i] = {v, i};
    x[sx::choose("at", big)].v = sx::any<int>("w");
  } else {
    for (unsigned i = 0; i < x.size(); ++i) x[i] = {sx::any<int>("v"), i};
  }
  auto const form = sx::choose("form", 5);
  if (sx::choose("list", 2)) run<std::list<E>>(x, form); else run<std::vector<E>>(x, form);
}
