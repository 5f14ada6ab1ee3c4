#pragma once
#include <cstddef>
#include <tuple>
#include <type_traits>
#include <utility>
namespace cista::detail {
struct any_t { template <typename T> constexpr operator T() const; };
template <typename T, std::size_t... I>
constexpr auto brace(std::index_sequence<I...>, T*) -> decltype(T{(static_cast<void>(I), any_t{})...}, std::true_type{}) { return {}; }
template <typename T, std::size_t... I>
constexpr std::false_type brace(std::index_sequence<I...>, ...) { return {}; }
template <typename T, std::size_t N = 10>
constexpr std::size_t arity() {
  if constexpr (decltype(brace<T>(std::make_index_sequence<N>{}, static_cast<T*>(nullptr)))::value) return N;
  else if constexpr (N == 0) return 0;
  else return arity<T, N - 1>();
}
template <typename T, typename = void>
struct has_cm : std::false_type {};
template <typename T>
struct has_cm<T, std::void_t<decltype(std::declval<T&>().cista_members())>> : std::true_type {};
template <typename T>
inline constexpr bool has_cista_members_v = has_cm<T>::value;
}  // namespace cista::detail
namespace cista {
template <typename T>
auto to_tuple(T& t) {
  constexpr auto a = detail::arity<std::remove_cv_t<T>>();
  if constexpr (a == 0) return std::tie();
  else if constexpr (a == 1) { auto& [p1] = t; return std::tie(p1); }
  else if constexpr (a == 2) { auto& [p1, p2] = t; return std::tie(p1, p2); }
  else if constexpr (a == 3) { auto& [p1, p2, p3] = t; return std::tie(p1, p2, p3); }
  else if constexpr (a == 4) { auto& [p1, p2, p3, p4] = t; return std::tie(p1, p2, p3, p4); }
  else if constexpr (a == 5) { auto& [p1, p2, p3, p4, p5] = t; return std::tie(p1, p2, p3, p4, p5); }
  else { static_assert(a == 6); auto& [p1, p2, p3, p4, p5, p6] = t; return std::tie(p1, p2, p3, p4, p5, p6); }
}
}  // namespace cista
