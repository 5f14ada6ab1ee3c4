// Minimal stand-in for {fmt}: formatting is outside the encoded code.  Plain
// "{}" fields and fields with a width and alignment of strings and integers are
// substituted so that message contents can be observed.
#pragma once
#include <ctime>
#include <string>
#include <string_view>
#include <ostream>
#include <type_traits>
#include <utility>
namespace fmt {
template <typename... A>
struct basic_format_string {
  template <typename S>
  consteval basic_format_string(S const& s) : s_{s} {}
  std::string_view s_;
};
template <typename... A>
using format_string = basic_format_string<std::type_identity_t<A>...>;
struct runtime_format { std::string_view s_; };
inline runtime_format runtime(std::string_view s) { return {s}; }
namespace detail {
template <typename T>
inline void put(std::string& o, T const& t) {
  if constexpr (std::is_same_v<T, bool>) o += t ? "true" : "false";
  else if constexpr (std::is_same_v<T, char>) o += t;
  else if constexpr (std::is_integral_v<T>) {
    unsigned long long u = static_cast<unsigned long long>(t);
    if constexpr (std::is_signed_v<T>) if (t < 0) { o += '-'; u = 0ULL - u; }
    char b[24];
    int n = 0;
    do { b[n++] = static_cast<char>('0' + u % 10); u /= 10; } while (u);
    while (n) o += b[--n];
  } else if constexpr (std::is_convertible_v<T const&, std::string_view>) o += std::string_view(t);
  else if constexpr (requires { t.t_._M_tmb; t.t_._M_fmt; }) {  // streamed(put_time(..))
    char b[128];
    o.append(b, std::strftime(b, sizeof b, t.t_._M_fmt, t.t_._M_tmb));
  } else o += "?";
}
inline void go(std::string& o, std::string_view f) { o += f; }
template <typename T, typename... R>
inline void go(std::string& o, std::string_view f, T const& t, R const&... r) {
  auto p = f.find('{');
  if (p == std::string_view::npos) { o += f; return; }
  auto e = f.find('}', p);
  o += f.substr(0, p);
  auto spec = f.substr(p + 1, e - p - 1);
  if (!spec.empty() && spec[0] == ':') {
    spec.remove_prefix(1);
    bool right = std::is_integral_v<T>;
    if (!spec.empty() && (spec[0] == '>' || spec[0] == '<')) { right = spec[0] == '>'; spec.remove_prefix(1); }
    size_t width = 0;
    for (auto const c : spec) width = width * 10 + static_cast<size_t>(c - '0');
    std::string x;
    put(x, t);
    size_t const fill = x.size() < width ? width - x.size() : 0;
    if (right) o.append(fill, ' ');
    o += x;
    if (!right) o.append(fill, ' ');
  } else {
    put(o, t);
  }
  go(o, f.substr(e + 1), r...);
}
}  // namespace detail
template <typename... A>
inline std::string format(format_string<A...> f, A&&... a) { std::string o; detail::go(o, f.s_, a...); return o; }
template <typename... A>
inline std::string format(runtime_format f, A&&... a) { std::string o; detail::go(o, f.s_, a...); return o; }
template <typename T>
struct streamed_t { T const& t_; };
template <typename T>
inline streamed_t<T> streamed(T const& t) { return {t}; }
#ifdef SX_IO
template <typename... A>
inline void print(std::ostream& os, format_string<A...> f, A&&... a) { std::string o; detail::go(o, f.s_, a...); os.write(o.data(), static_cast<std::streamsize>(o.size())); }
template <typename... A>
inline void print(std::ostream& os, runtime_format f, A&&... a) { std::string o; detail::go(o, f.s_, a...); os.write(o.data(), static_cast<std::streamsize>(o.size())); }
#else
template <typename F, typename... A>
inline void print(std::ostream&, F&&, A&&...) {}
#endif
}  // namespace fmt
