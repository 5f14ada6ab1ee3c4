// C39: bit iteration
#include "sx.h"
#include "utl/for_each_bit_set.h"

// the callback is free of branches, so that one path covers all values
template <typename T>
static void all_values() {
  auto const v = sx::any<T>("v");
  T got{0};
  unsigned pack{0};  // low half: lowest bit allowed next, high half: order violated
  utl::for_each_set_bit(v, [&](unsigned const bit) {
    unsigned const wrong = static_cast<unsigned>(bit < (pack & 0xffffU)) | static_cast<unsigned>(bit >= sizeof(T) * 8U);
    pack = (pack & 0xffff0000U) | (wrong << 16U) | ((bit + 1U) & 0xffffU);
    got = static_cast<T>(got | static_cast<T>(T{1} << (bit & (sizeof(T) * 8U - 1U))));
  });
  unsigned const bad = pack >> 16U;
  sx_assert(bad == 0, "ascending order, each at most once");
  sx_assert(got == v, "exactly the set bits");
  sx_reach("all values");
  sx_observe(pack);
}
template <typename T>
static void single() {
  auto const v = sx::any<T>("v");
  auto const bit = sx::in<uint8_t>("bit", 0, sizeof(T) * 8 - 1);
  sx_assert(utl::has_bit_set(v, static_cast<unsigned>(bit)) == (((v >> bit) & 1U) != 0U), "single bit");
  sx_reach("single bit");
}
// the order of the calls, seen by a callback with memory: any bits in a window
// at any position, all other bits clear or all set
template <typename T>
static void windows() {
  constexpr unsigned W = sizeof(T) * 8;
  unsigned const w = sx::param("window", 4), p = sx::choose("position", W - w + 1);
  auto const part = sx::in<uint8_t>("part", 0, static_cast<uint8_t>((1U << w) - 1U));
  bool const rest = sx::choose("rest", 2);
  T const mask = static_cast<T>(static_cast<T>((T{1} << w) - 1U) << p);
  T const v = static_cast<T>(static_cast<T>(static_cast<T>(part) << p) | (rest ? static_cast<T>(~mask) : T{0}));
  unsigned next = 0;
  auto in_v = [&](unsigned b) { return b >= p && b < p + w ? ((part >> (b - p)) & 1U) != 0 : rest; };
  utl::for_each_set_bit(v, [&](unsigned bit) {
    sx_assert(bit >= next && bit < W && in_v(bit), "a set bit, ascending");
    for (; next < bit; ++next) sx_assert(!in_v(next), "no set bit left out");
    next = bit + 1;
  });
  for (; next < W; ++next) sx_assert(!in_v(next), "no set bit left out at the end");
  sx_reach("order");
}
template <typename T>
static void type() {
  if (sx::param("full", 0)) {
    all_values<T>();
  } else if (sx::choose("mode", 2)) {
    single<T>();
  } else {
    windows<T>();
  }
}
extern "C" void sx_main() {
  switch (sx::choose("type", 6)) {
    case 0: type<uint8_t>(); break;
    case 1: type<uint16_t>(); break;
    case 2: type<uint32_t>(); break;
    case 3: type<uint64_t>(); break;
    case 4: type<unsigned char>(); break;
    default: type<unsigned long long>();
  }
}
