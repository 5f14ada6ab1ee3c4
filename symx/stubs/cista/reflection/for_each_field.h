#pragma once
#include "cista/reflection/arity.h"
namespace cista {
template <typename T, typename Fn>
void for_each_field(T& t, Fn&& fn) {
  auto tup = to_tuple(t);
  std::apply([&](auto&... f) { (fn(f), ...); }, tup);
}
template <typename T, typename Fn>
void for_each_field(Fn&& fn) {
  T t{};
  auto tup = to_tuple(t);
  std::apply([&](auto&... f) { (fn(f), ...); }, tup);
}
}  // namespace cista
