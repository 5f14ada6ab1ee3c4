// Self-test of the library model: symbolic run and native run must agree.
#include "sx.h"
#include <algorithm>
#include <array>
#include <cctype>
#include <charconv>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <strings.h>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>
#include <queue>
#include <ranges>
#include <span>
#include <bitset>
#include <stdexcept>
#include <typeinfo>
#ifdef SX_IO_TEST
#include <iostream>
#include <sstream>
#endif

static void o(std::string const& s) { sx::observe_bytes(s.data(), s.size()); sx_observe(s.size()); }
static void strings() {
  char buf[5];
  for (int i = 0; i < 4; ++i) { buf[i] = "aB1 "[sx::choose("c", 4)]; }
  buf[4] = 0;
  std::string s = buf;
  for (unsigned char c : s) {
    sx_observe(tolower(c)); sx_observe(toupper(c));
    sx_observe(!!isupper(c) | !!islower(c) << 1 | !!isxdigit(c) << 2 | !!ispunct(c) << 3 | !!isprint(c) << 4 | !!iscntrl(c) << 5 | !!isgraph(c) << 6 | !!isblank(c) << 7 | !!isalnum(c) << 8 | !!isspace(c) << 9);
  }
  auto idx = [&](char const* p) { sx_observe(p ? p - buf : 99); };
  idx(strchr(buf, 'B')); idx(strrchr(buf, 'B')); idx(strstr(buf, "B1")); idx((char const*)memrchr(buf, 'a', 4)); idx(strpbrk(buf, "1 ")); idx((char const*)memchr(buf, '1', 4));
  idx((char const*)memmem(buf, 4, "1", 1));
  sx_observe(strspn(buf, "aB")); sx_observe(strcspn(buf, "1")); sx_observe(strnlen(buf, 3)); sx_observe(strcasecmp(buf, "AB1 ") == 0); sx_observe(strncasecmp(buf, "ABC", 2) == 0);
  sx_observe(strcmp(buf, "aB") < 0); sx_observe(strncmp(buf, "aB", 2) == 0);
  char d[20];
  strcpy(d, buf); strcat(d, "xy"); strncat(d, "zzz", 2); o(d); strncpy(d, "ab", 5); o(std::string(d, 5));
  char* e;
  sx_observe(strtol(buf, &e, 10)); sx_observe(e - buf); sx_observe(strtoul(buf + 2, &e, 16)); sx_observe(e - buf); sx_observe(atoi(buf + 2));
  o(std::to_string(strtol("-9223372036854775809", nullptr, 10))); o(std::to_string(strtoull("18446744073709551615", nullptr, 10))); o(std::to_string(-17)); 
  sx_observe(std::stoi("42")); sx_observe(std::stoul("0x1f", nullptr, 0));
  try { std::stoi(s); sx_observe(1); } catch (std::invalid_argument const&) { sx_observe(2); } catch (std::out_of_range const&) { sx_observe(3); }
  try { std::stoi("99999999999"); sx_observe(1); } catch (std::out_of_range const&) { sx_observe(3); }
  int v = 0;
  auto r = std::from_chars(buf, buf + 4, v);
  sx_observe(v); sx_observe(r.ptr - buf); sx_observe((int)r.ec);
  r = std::from_chars(buf, buf + 4, v, 16);
  sx_observe(v); sx_observe(r.ptr - buf);
  char n[24]; auto t = std::to_chars(n, n + 24, -12345); o(std::string(n, t.ptr));
  // std::string
  auto x = s;
  x.append("0123456789abcdef"); o(x); x.insert(2, "--"); o(x); x.replace(1, 3, "r"); o(x); x.replace(1, 1, x, 0, 3); o(x); x.erase(3, 4); o(x); x.resize(30, 'q'); o(x);
  x.replace(x.begin(), x.begin() + 2, "LL"); o(x); x.assign(3, 'z'); x.push_back('k'); x.insert(x.begin(), 'b'); o(x); x += x; o(x); x.insert(3, x); o(x); x.pop_back();
  sx_observe(x.find("zz")); sx_observe(x.rfind("zz")); sx_observe(x.find_first_of("kb")); sx_observe(x.find_last_of("b")); sx_observe(x.find_first_not_of("b")); sx_observe(x.find_last_not_of("k")); sx_observe(x.compare("c") < 0); sx_observe(x.starts_with("bz")); sx_observe(x.ends_with("z")); sx_observe(x.contains("zk"));
  o(x.substr(1, 3)); x.clear(); x.shrink_to_fit(); o(x + "a" + 'c' + s);
  try { (void)x.at(3); } catch (std::out_of_range const&) { sx_observe(7); }
  std::string_view sv = s;
  sx_observe(sv.find('1')); sx_observe(sv.rfind('a')); sv.remove_prefix(1); sv.remove_suffix(1); sx_observe(sv == "B1"); sx_observe(std::hash<std::string_view>{}(sv) == std::hash<std::string>{}(std::string(sv)));
  try { (void)sv.substr(9); } catch (std::out_of_range const&) { sx_observe(8); }
  std::transform(s.begin(), s.end(), s.begin(), [](unsigned char c) { return std::tolower(c); }); o(s);
  s.erase(std::remove(s.begin(), s.end(), 'a'), s.end()); o(s);
  std::erase_if(s, [](char c) { return std::isspace(c); }); o(s);
  std::reverse(s.begin(), s.end()); o(s);
  sx_reach("strings");
}
template <typename C> static void oc(C const& c) { for (auto const& e : c) sx_observe(e); sx_observe(std::distance(c.begin(), c.end())); }
static void containers() {
  std::vector<int> v;
  for (int i = 0; i < 4; ++i) v.push_back((int)sx::choose("v", 3));
  auto w = v; std::sort(w.begin(), w.end()); oc(w); w = v; std::stable_sort(w.begin(), w.end(), std::greater<>{}); oc(w); w = v; std::nth_element(w.begin(), w.begin() + 1, w.end()); sx_observe(w[1]);
  w = v; std::partial_sort(w.begin(), w.begin() + 2, w.end()); sx_observe(w[0]); sx_observe(w[1]); w = v; std::rotate(w.begin(), w.begin() + 1, w.end()); oc(w); std::inplace_merge(w.begin(), w.begin(), w.end());
  w.insert(w.begin() + 1, 9); w.insert(w.end(), v.begin(), v.end()); w.erase(w.begin()); oc(w); w.resize(9, 3); oc(w); w.erase(std::unique(w.begin(), w.end()), w.end()); oc(w); std::erase(w, 3); oc(w);
  std::make_heap(w.begin(), w.end()); std::pop_heap(w.begin(), w.end()); sx_observe(w.back());
  sx_observe(std::accumulate(v.begin(), v.end(), 0)); sx_observe(std::count(v.begin(), v.end(), 1)); sx_observe(std::is_sorted(v.begin(), v.end())); sx_observe(*std::max_element(v.begin(), v.end())); sx_observe(std::adjacent_find(v.begin(), v.end()) - v.begin());
  sx_observe(std::partition_point(w.begin(), w.end(), [](int) { return false; }) - w.begin()); sx_observe(std::mismatch(v.begin(), v.end(), w.begin(), w.end()).first - v.begin()); sx_observe(std::equal(v.begin(), v.end(), w.begin(), w.end()));
  std::vector<int> p(4); std::iota(p.begin(), p.end(), 0); std::stable_partition(p.begin(), p.end(), [&](int i) { return v[i] > 0; }); oc(p); std::exclusive_scan(v.begin(), v.end(), p.begin(), 0); oc(p);
  std::list<int> l(v.begin(), v.end()); l.sort(); oc(l); l.reverse(); oc(l); std::list<int> l2{7, 8}; l.splice(l.begin(), l2); oc(l); l.swap(l2); oc(l2); l2.unique(); oc(l2); l.push_front(1); l.merge(l2); oc(l); l.remove(7); oc(l);
  std::deque<int> d(v.begin(), v.end()); d.push_front(5); d.pop_back(); d.insert(d.begin() + 1, 3, 6); d.erase(d.begin()); oc(d); std::sort(d.begin(), d.end()); oc(d);
  std::map<int, int> m; for (int e : v) ++m[e]; m.erase(1); m.insert_or_assign(0, 4); m.try_emplace(8, 2); for (auto& [a, b] : m) { sx_observe(a); sx_observe(b); } sx_observe(m.lower_bound(1) == m.end()); auto nh = m.extract(8); m.insert(std::move(nh)); sx_observe(m.count(8));
  std::set<std::string> s; s.insert("b"); s.emplace("a"); s.insert("a"); for (auto it = s.rbegin(); it != s.rend(); ++it) o(*it);
  std::multimap<int, int> mm; for (int i = 0; i < 4; ++i) mm.emplace(v[i], i); for (auto [a, b] = mm.equal_range(1); a != b; ++a) sx_observe(a->second);
  std::unordered_map<std::string, int> u; for (int i = 0; i < 20; ++i) u[std::to_string(i)] = i; u.erase("3"); sx_observe(u.size()); sx_observe(u.at("7")); sx_observe(u.contains("3")); std::unordered_set<int> us(v.begin(), v.end()); sx_observe(us.size());
  std::priority_queue<int> q; for (int e : v) q.push(e); sx_observe(q.top()); q.pop(); sx_observe(q.top());
  std::vector<bool> vb(70); vb[65] = true; vb.push_back(true); vb.flip(); sx_observe(std::count(vb.begin(), vb.end(), true)); std::bitset<70> bs; bs.set(66); sx_observe(bs.count());
  std::optional<std::string> op; sx_observe(op.has_value()); op = "x"; o(op.value_or("y")); std::variant<int, std::string> va = "z"; o(std::get<1>(va)); try { (void)std::get<0>(va); } catch (std::bad_variant_access const&) { sx_observe(5); } sx_observe(std::visit([](auto const& x) { return sizeof x; }, va) == sizeof(std::string));
  auto sp = std::make_shared<int>(3); std::weak_ptr<int> wp = sp; sx_observe(sp.use_count()); sp.reset(); sx_observe(wp.expired()); auto up = std::make_unique<int[]>(4); sx_observe(up[2]);
  std::function<int(int)> f = [&](int i) { return v[0] + i; }; sx_observe(f(3)); std::function<int()> ef; try { ef(); } catch (std::bad_function_call const&) { sx_observe(6); }
  int sum = 0; for (int e : v | std::views::filter([](int i) { return i > 0; }) | std::views::transform([](int i) { return i * 2; }) | std::views::reverse) sum = sum * 10 + e; sx_observe(sum); std::ranges::sort(v); oc(v); sx_observe(std::ranges::find(v, 2) - v.begin());
  for (auto x : std::views::iota(0, 3)) sx_observe(x); for (auto [a, b] : std::views::zip(v, v)) sx_observe(a + b); sx_observe(std::span(v).subspan(1).size()); sx_observe(std::midpoint(3, 8)); sx_observe(std::popcount(77u));
  try { throw std::runtime_error("a" + std::to_string(v[0])); } catch (std::exception const& e) { o(e.what()); try { std::rethrow_exception(std::current_exception()); } catch (std::runtime_error const&) { sx_observe(11); } }
  auto tu = std::make_tuple(1, v[0]); sx_observe(std::apply([](int a, int b) { return a + b; }, tu)); sx_observe(std::tie(v[0], v[1]) < std::tie(v[2], v[3]));
  sx_reach("containers");
}
#ifdef SX_IO_TEST
static void streams() {
  std::string t(3, ' ');
  for (auto& c : t) c = "a \n"[sx::choose("c", 3)];
  std::istringstream in(t + "xyz,1\nlast");
  char b[4];
  in.getline(b, 3); o(b); sx_observe(in.gcount()); sx_observe(in.rdstate()); in.clear();
  in.ignore(1); sx_observe(in.peek()); in.ignore(3, '\n'); sx_observe(in.gcount());
  std::string w; in >> w; o(w); sx_observe(in.get()); std::getline(in, w); o(w); in.seekg(0); std::getline(in, w, 'x'); o(w); sx_observe(in.eof()); in.read(b, 3); sx_observe(in.gcount());
  while (std::getline(in, w)) o(w);
  sx_observe(in.rdstate());
  std::ostringstream s; s << 17 << ' ' << -3L << "x" << w << 'c' << true << std::boolalpha << false << 4u << (size_t)9 << (short)-2; s.put('p').write("qr", 2); o(s.str());
  std::stringstream io; io << "k v"; std::string k, v; io >> k >> v; o(k); o(v); sx_observe(!!(io >> k));
  s.str(""); s << std::endl << std::flush; o(s.str());
  sx_reach("streams");
}
#endif
extern "C" void sx_main() {
  switch (sx::param("mode", 0)) {
    case 0: strings(); break;
    case 1: containers(); break;
#ifdef SX_IO_TEST
    case 2: streams(); break;
#endif
  }
}
