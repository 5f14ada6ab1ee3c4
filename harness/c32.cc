// C32: structs of references initialised from other structs
#include "sx.h"
#include <memory>
#include "utl/init_from.h"

struct tag { int x; };
struct tgt {
  int& i_;
  float& f_;
  int& j_;
  tag* t_;
};
struct src {
  double z_;
  std::unique_ptr<float> f_;
  int i_;
  std::unique_ptr<tag> t_;
  int later_;
};
static void owning() {
  bool const has_f = sx::choose("f", 2), has_t = sx::choose("t", 2);
  int const i0 = sx::any<int>("i"), l0 = sx::any<int>("l"), w = sx::any<int>("w"), x = sx::any<int>("x");
  float const f0 = sx::any<float>("fv"), g = sx::any<float>("g");
  sx_assume(f0 == f0 && g == g);
  auto s = src{1.0, has_f ? std::make_unique<float>(f0) : nullptr, i0, has_t ? std::make_unique<tag>(tag{x}) : nullptr, l0};
  auto const fp = s.f_.get();
  auto const tp = s.t_.get();
  auto t = utl::init_from<tgt>(s);
  sx_assert(t.has_value() == has_f, "empty exactly if a needed pointer is null");
  if (t) {
    sx_assert(&t->i_ == &s.i_ && &t->j_ == &s.i_ && &t->f_ == fp && t->t_ == tp, "bound to the matching source field");
    sx_assert(t->i_ == i0 && t->f_ == f0, "values");
    t->i_ = w;
    t->f_ = g;
    sx_assert(s.i_ == w && *s.f_ == g && t->j_ == w, "writes go to the source");
    sx_assert(s.later_ == l0, "other fields untouched");
    if (has_t) { t->t_->x = w; sx_assert(s.t_->x == w, "through the pointer"); }
    sx_reach("bound");
  } else {
    sx_reach("empty");
  }
  sx_assert(s.f_.get() == fp && s.t_.get() == tp, "ownership stays with the source");
}
// order of fields decides; raw pointers; value before pointer and pointer before value
struct tgt2 { long& a_; char*  c_; short& b_; };
struct src2 { short* b_; long a_; std::unique_ptr<long> a2_; char* c_; short b2_; };
static void raw() {
  bool const has_b = sx::choose("b", 2), has_c = sx::choose("c", 2), has_a2 = sx::choose("a2", 2);
  short b = sx::any<short>("bv");
  char c = sx::any<char>("cv");
  auto s = src2{has_b ? &b : nullptr, sx::any<long>("av"), has_a2 ? std::make_unique<long>(1) : nullptr, has_c ? &c : nullptr, 5};
  auto t = utl::init_from<tgt2>(s);
  sx_assert(t.has_value() == has_b, "empty exactly if a needed pointer is null");
  if (t) {
    sx_assert(&t->a_ == &s.a_, "first field of the type");
    sx_assert(&t->b_ == &b, "first match is the pointer");
    sx_assert(t->c_ == (has_c ? &c : nullptr), "pointer address");
    short const w = sx::any<short>("w");
    t->b_ = w;
    sx_assert(b == w && s.b2_ == 5, "write through");
    sx_reach("raw");
  }
}
// two pointers needed for references; pointers for pointers; struct-typed members
struct tgt3 { tag& t_; float& f_; int* i_; double* d_; };
struct src3 { std::unique_ptr<int> i_; std::shared_ptr<float> f_; std::unique_ptr<tag> t_; std::unique_ptr<double> d_; };
static void several() {
  bool has[4];
  for (auto& h : has) h = sx::choose("has", 2);
  auto s = src3{};
  if (has[0]) s.i_ = std::make_unique<int>(sx::any<int>("i"));
  if (has[1]) s.f_ = std::make_shared<float>(2.F);
  if (has[2]) s.t_ = std::make_unique<tag>(tag{sx::any<int>("x")});
  if (has[3]) s.d_ = std::make_unique<double>(3.0);
  auto t = utl::init_from<tgt3>(s);
  sx_assert(t.has_value() == (has[1] && has[2]), "empty exactly if a needed pointer is null");
  if (t) {
    sx_assert(&t->t_ == s.t_.get() && &t->f_ == s.f_.get(), "references through owning pointers");
    sx_assert(t->i_ == s.i_.get() && t->d_ == s.d_.get(), "addresses, null if empty");
    sx_reach("several");
  }
}
// target of one / many members
struct one { int& x_; };
struct nine { int& a_; long& b_; int& c_; float& d_; short& e_; long& f_; char& g_; double& h_; int& i_; };
struct wide { char g_; double h_; short e_; long b_; float d_; int a_; unsigned u_; };
static void many() {
  auto s = wide{sx::any<char>("g"), 1.0, sx::any<short>("e"), sx::any<long>("b"), 2.F, sx::any<int>("a"), 3};
  auto o = utl::init_from<one>(s);
  sx_assert(o.has_value() && &o->x_ == &s.a_, "one member");
  auto n = utl::init_from<nine>(s);
  sx_assert(n.has_value(), "no pointer involved");
  sx_assert(&n->a_ == &s.a_ && &n->c_ == &s.a_ && &n->i_ == &s.a_, "ints");
  sx_assert(&n->b_ == &s.b_ && &n->f_ == &s.b_ && &n->d_ == &s.d_ && &n->e_ == &s.e_ && &n->g_ == &s.g_ && &n->h_ == &s.h_, "others");
  sx_reach("many");
}
extern "C" void sx_main() {
  auto const base = sx_heap_live();
  switch (sx::choose("mode", 4)) {
    case 0: owning(); break;
    case 1: raw(); break;
    case 2: several(); break;
    default: many();
  }
  sx_assert(sx_heap_live() == base, "nothing leaks");
}
