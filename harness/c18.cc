// C18: sort_by
#include "sx.h"
#include "utl/sort_by.h"
#include <string>
#include <vector>

struct K { int k; unsigned id; bool operator<(K const& o) const { return k < o.k; }
  bool operator>(K const& o) const { return k > o.k; }
  bool operator<=(K const& o) const { return k <= o.k; }
  bool operator>=(K const& o) const { return k >= o.k; }
  bool operator==(K const& o) const { return k == o.k; }
  bool operator!=(K const& o) const { return k != o.k; } };
extern "C" void sx_main() {
  unsigned const big = sx::param("big", 0);
  unsigned const n = big ? big : sx::choose("n", sx::param("n", 4) + 1);
  std::vector<K> keys(n);
  std::vector<unsigned> b(n);
  std::vector<std::pair<int, unsigned>> c(n);
  std::vector<int> const plain = [&] {
    std::vector<int> p(n);
    if (big) {  // long: one symbolic row
      for (unsigned i = 0; i < n; ++i) p[i] = static_cast<int>((n - i) * 3);
      p[n / 2] = sx::any<int>("p");
      return p;
    }
    for (auto& e : p) e = sx::any<int>("p");
    return p;
  }();
  for (unsigned i = 0; i < n; ++i) {
    keys[i] = {big ? static_cast<int>((i * 7) % (n - 1)) * 3 : sx::any<int>("k"), i};
    b[i] = 100 + i;
    c[i] = {plain[i], i};
  }
  if (big) keys[n / 2].k = sx::in<int>("key", -1000000, 1000000);
  auto const keys0 = keys;
  auto const b0 = b;
  auto const c0 = c;
  auto rows = [&](auto const& rk, auto const& rb, auto const& rc) {
    sx_assert(rk.size() == n && rb.size() == n && rc.size() == n, "sizes");
    bool seen[320] = {};
    for (unsigned i = 0; i < n; ++i) {
      auto const id = sx_concretize(rb[i]) - 100;
      sx_assert(id < n && !seen[id], "every row once");
      seen[id] = true;
      sx_assert(rk[i].id == id && rk[i].k == keys0[id].k, "the row's key");
      sx_assert(rc[i].second == id && rc[i].first == plain[id], "the row's second companion");
      if (i) sx_assert(!(rk[i].k < rk[i - 1].k), "keys sorted");
      if (i != id) sx_reach("moved");
    }
  };
  switch (big ? 0 : sx::choose("form", 4)) {
    case 0: {
      auto const [rk, rb, rc] = utl::sort_by(keys, b, c);
      rows(rk, rb, rc);
      break;
    }
    case 1: {
      auto const [rk, rb, rc] = utl::sort_by(keys0, b0, c0);
      rows(rk, rb, rc);
      break;
    }
    case 2: {
      auto const [rk, rb, rc] = utl::sort_by(std::vector<K>(keys), b0, std::vector<std::pair<int, unsigned>>(c));
      rows(rk, rb, rc);
      break;
    }
    case 3: {  // only keys, plain ints
      auto const [r] = utl::sort_by(plain);
      sx_assert(r.size() == n, "sizes");
      for (unsigned i = 0; i < n; ++i) {
        if (i) sx_assert(r[i - 1] <= r[i], "keys sorted");
        unsigned x = 0, y = 0;
        for (unsigned j = 0; j < n; ++j) { x += plain[j] == r[i]; y += r[j] == r[i]; }
        sx_assert(x == y, "same multiplicity");
      }
      sx_reach("keys only");
    }
  }
  for (unsigned i = 0; i < n; ++i) {
    sx_assert(keys[i].id == i && keys[i].k == keys0[i].k && b[i] == 100 + i && b0[i] == 100 + i && c[i] == c0[i], "inputs unchanged");
  }
}
