// C30: get-or-create
#include "sx.h"
#include "utl/get_or_create.h"
#include "utl/get_or_create_index.h"
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>
#include <functional>

struct boom {};
struct key_hash { size_t operator()(int8_t k) const { return static_cast<size_t>(sx_concretize(static_cast<uint64_t>(k & 1))); } };
// a map interface without emplace_hint
template <typename K, typename V>
struct plain_map {
  using key_type = K;
  using mapped_type = V;
  using value_type = std::pair<K, V>;
  using iterator = typename std::vector<std::unique_ptr<value_type>>::iterator;
  struct it {
    value_type* operator->() const { return p; }
    value_type& operator*() const { return *p; }
    bool operator==(it const& o) const { return p == o.p; }
    value_type* p;
  };
  it find(K const& k) {
    for (auto& e : v) if (e->first == k) return {e.get()};
    return {nullptr};
  }
  friend it end(plain_map&) { return {nullptr}; }
  std::pair<it, bool> emplace(K k, V x) {
    for (auto& e : v) if (e->first == k) return {{e.get()}, false};
    v.push_back(std::make_unique<value_type>(std::move(k), std::move(x)));
    return {{v.back().get()}, true};
  }
  V& operator[](K const& k) {
    for (auto& e : v) if (e->first == k) return e->second;
    return emplace(k, V{}).first->second;
  }
  size_t size() const { return v.size(); }
  bool empty() const { return v.empty(); }
  std::vector<std::unique_ptr<value_type>> v;
};
template <typename Map, typename Key>
static void create(unsigned n) {
  Map m;
  int8_t keys[8];
  int want[8];
  int* refs[8];
  unsigned known = 0;
  for (unsigned i = 0; i < n; ++i) {
    auto const k = sx::any<int8_t>("k");
    auto const v = sx::any<int>("v");
    bool const fails = sx::fork(sx::any<bool>("factory fails"));
    unsigned calls = 0, j = 0;
    while (j < known && keys[j] != k) ++j;
    try {
      auto const lookup = Key{k};
      auto& r = utl::get_or_create(m, lookup, [&] { ++calls; if (fails) throw boom{}; return v; });
      sx_assert(calls == (j == known ? 1 : 0), "factory exactly for new keys");
      if (j == known) {
        sx_assert(!fails, "failure of the factory surfaces");
        keys[known] = k;
        want[known] = v;
        refs[known++] = &r;
      }
      sx_assert(&r == refs[j], "reference to the entry of the key");
      sx_assert(r == want[j], "value");
      if (sx::choose("write", 2)) { r = want[j] = sx::any<int>("w"); }
    } catch (boom const&) {
      sx_assert(fails && calls == 1 && j == known, "factory only for new keys");
      sx_reach("factory failed");
    }
    sx_assert(m.size() == known, "one entry per key");
    for (unsigned q = 0; q < known; ++q) {
      auto it = m.find(Key{keys[q]});
      sx_assert(it != end(m) && &it->second == refs[q] && it->second == want[q], "existing entries unchanged");
    }
  }
  sx_reach("created");
}
// key and factory types that can only be moved
static void movable() {
  std::map<std::string, std::unique_ptr<int>> m;
  char c0 = sx::any<char>("c0"), c1 = sx::any<char>("c1");
  auto& a = utl::get_or_create(m, std::string(20, c0), [] { return std::make_unique<int>(1); });
  auto& b = utl::get_or_create(m, std::string(20, c1), [] { return std::make_unique<int>(2); });
  sx_assert((&a == &b) == (c0 == c1), "same entry exactly for the same key");
  sx_assert(*a == 1 && *b == (c0 == c1 ? 1 : 2), "created once");
  sx_assert(m.find(std::string(20, c0))->second.get() == a.get() && m.find(std::string(20, c1))->second.get() == b.get(), "found by key");
  auto s = std::string(20, c0);
  auto& c = utl::get_or_create(m, s, [] { return std::make_unique<int>(3); });
  sx_assert(&c == &a && s.size() == 20 && s[19] == c0, "key of the caller untouched");
  sx_reach("movable");
}
template <typename Map>
static void index(unsigned n) {
  Map m;
  int8_t keys[8];
  unsigned known = 0;
  for (unsigned i = 0; i < n; ++i) {
    auto const k = sx::any<int8_t>("k");
    unsigned j = 0;
    while (j < known && keys[j] != k) ++j;
    if (j == known) keys[known++] = k;
    sx_assert(utl::get_or_create_index(m, k) == j, "dense and stable indices");
    sx_assert(m.size() == known, "one entry per key");
    for (unsigned q = 0; q < known; ++q) sx_assert(m.find(keys[q])->second == q, "indices unchanged");
  }
  sx_reach("indices");
}
// a map that holds many entries besides the ones looked at
template <typename K, typename V>
struct vast_map : plain_map<K, V> {
  size_t size() const { return base + this->v.size(); }
  friend typename plain_map<K, V>::it end(vast_map&) { return {nullptr}; }
  size_t base{0};
};
static void vast() {
  vast_map<int8_t, size_t> m;
  m.base = sx::in<uint64_t>("entries", 0, uint64_t{1} << 60);
  auto const a = sx::any<int8_t>("a"), b = sx::any<int8_t>("b");
  sx_assert(utl::get_or_create_index(m, a) == m.base, "next index of a large map");
  sx_assert(utl::get_or_create_index(m, b) == m.base + (a == b ? 0 : 1), "indices of a large map");
  sx_assert(utl::get_or_create_index(m, a) == m.base && m.v.size() == (a == b ? 1 : 2), "stable index of a large map");
  sx_reach("vast");
}
extern "C" void sx_main() {
  unsigned const n = sx::param("n", 3);
  if (sx::param("big", 0)) {  // many keys, given in any of several orders
    static unsigned const bigs[] = {127, 128, 255, 256, 257, 300};
    unsigned const k = bigs[sx::choose("keys", 6)], step = 1 + 6 * sx::choose("order", 2);
    auto go = [&](auto m, auto c) {
      auto const first = sx::any<int>("first");
      sx_assume(first > 1000);
      for (unsigned i = 0; i < k; ++i) sx_assert(utl::get_or_create_index(m, i == 0 ? first : static_cast<int>(i * step % 811)) == i, "dense indices");
      for (unsigned i = k; i-- > 0;) sx_assert(utl::get_or_create_index(m, i == 0 ? first : static_cast<int>(i * step % 811)) == i, "stable indices");
      sx_assert(m.size() == k, "one index per key");
      unsigned calls = 0;
      for (unsigned r = 0; r < 2; ++r)
        for (unsigned i = 0; i < k; ++i) {
          auto& e = utl::get_or_create(c, i == 0 ? first : static_cast<int>(i * step % 811), [&] { return static_cast<int>(calls++); });
          sx_assert(e == static_cast<int>(i), "entry of the key");
        }
      sx_assert(calls == k && c.size() == k, "created once per key");
    };
    if (sx::choose("hashed", 2)) { struct h { size_t operator()(int v) const { return static_cast<size_t>(sx_concretize(static_cast<uint64_t>(v & 15))); } }; go(std::unordered_map<int, size_t, h>{}, std::unordered_map<int, int, h>{}); }
    else go(std::map<int, size_t>{}, std::map<int, int>{});
    sx_reach("many keys");
    return;
  }
  switch (sx::choose("mode", 9)) {
    case 0: create<std::map<int8_t, int>, int8_t>(n); break;
    case 1: create<std::unordered_map<int8_t, int, key_hash>, int8_t>(n); break;
    case 2: create<plain_map<int8_t, int>, int8_t>(n); break;
    case 3: movable(); break;
    case 8: vast(); break;
    case 4: index<std::map<int8_t, size_t>>(n + 1); break;
    case 6: create<std::map<int8_t, int, std::greater<>>, int8_t>(n); break;
    case 7: index<std::map<int8_t, size_t, std::greater<>>>(n + 1); break;
    default: index<std::unordered_map<int8_t, size_t, key_hash>>(n + 1);
  }
}
