#include <functional>
#include "expr.h"
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <set>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>

std::vector<SymInfo> g_syms;
SolverStats g_sstats;
u64 g_exprCount = 0;

void die(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  fprintf(stderr, "symx: ");
  vfprintf(stderr, fmt, ap);
  fprintf(stderr, "\n");
  va_end(ap);
  extern void dieHook(const char*);
  char buf[1000];
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  dieHook(buf);
  _exit(3);
}

static u32 epochCtr = 0;
u32 newEpoch() { return ++epochCtr; }
Model::Model() : epoch(newEpoch()) {}

// ---- arena / tables ----
static char* arenaPtr = nullptr;
static size_t arenaLeft = 0;
static void* arenaAlloc(size_t n) {
  n = (n + 15) & ~size_t(15);
  if (arenaLeft < n) {
    arenaLeft = size_t(1) << 22;
    arenaPtr = (char*)aligned_alloc(16, arenaLeft);
  }
  void* p = arenaPtr;
  arenaPtr += n;
  arenaLeft -= n;
  return p;
}

static std::unordered_map<std::string, SymSet*> symSetTab;
static SymSet* internSet(std::vector<u32> const& ids) {
  std::string k((char const*)ids.data(), ids.size() * 4);
  auto it = symSetTab.find(k);
  if (it != symSetTab.end()) return it->second;
  auto s = new SymSet{ids, (u32)symSetTab.size()};
  for (auto i : ids)
    if (g_syms[i].undef) s->hasUndef = true;
  symSetTab.emplace(k, s);
  return s;
}
static std::unordered_map<u64, SymSet*> unionCache;
static SymSet* unionSet(SymSet* a, SymSet* b) {
  if (!a || a == b) return b;
  if (!b) return a;
  if (a->id > b->id) std::swap(a, b);
  u64 k = (u64(a->id) << 32) | b->id;
  auto it = unionCache.find(k);
  if (it != unionCache.end()) return it->second;
  std::vector<u32> r;
  std::set_union(a->ids.begin(), a->ids.end(), b->ids.begin(), b->ids.end(), std::back_inserter(r));
  auto s = internSet(r);
  unionCache.emplace(k, s);
  return s;
}

static Expr** htab = nullptr;
static size_t hcap = 0, hcount = 0;
static inline u64 mix(u64 h) {
  h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33;
  return h;
}
static inline u64 hashOf(Op op, unsigned w, u32 aux, Expr* a, Expr* b, Expr* c, u128 v) {
  u64 h = (u64(op) << 32) ^ (u64(w) << 40) ^ aux;
  h = mix(h + (a ? a->id + 1 : 0));
  h = mix(h * 31 + (b ? b->id + 1 : 0));
  h = mix(h * 31 + (c ? c->id + 1 : 0));
  h = mix(h ^ (u64)v ^ mix((u64)(v >> 64)));
  return h;
}
static void hgrow() {
  size_t ncap = hcap ? hcap * 2 : (size_t(1) << 16);
  auto nt = (Expr**)calloc(ncap, sizeof(Expr*));
  for (size_t i = 0; i < hcap; ++i)
    if (auto e = htab[i]) {
      u64 h = hashOf(e->op, e->w, e->aux, e->a, e->b, e->c, e->v);
      size_t p = h & (ncap - 1);
      while (nt[p]) p = (p + 1) & (ncap - 1);
      nt[p] = e;
    }
  free(htab);
  htab = nt;
  hcap = ncap;
}
static Expr* intern(Op op, unsigned w, u32 aux, Expr* a, Expr* b, Expr* c, u128 v) {
  if (hcount * 10 >= hcap * 6) hgrow();
  u64 h = hashOf(op, w, aux, a, b, c, v);
  size_t p = h & (hcap - 1);
  while (auto e = htab[p]) {
    if (e->op == op && e->w == w && e->aux == aux && e->a == a && e->b == b && e->c == c && e->v == v)
      return e;
    p = (p + 1) & (hcap - 1);
  }
  auto e = new (arenaAlloc(sizeof(Expr))) Expr();
  e->op = op; e->w = w; e->aux = aux; e->a = a; e->b = b; e->c = c; e->v = v;
  e->id = (u32)++g_exprCount;
  SymSet* s = nullptr;
  if (a) s = a->syms;
  if (b) s = unionSet(s, b->syms);
  if (c) s = unionSet(s, c->syms);
  e->syms = s;
  e->sh = mix(mix(mix(mix((u64(op) << 32) ^ (u64(w) << 40) ^ aux) + (a ? a->sh : 1)) * 31 + (b ? b->sh : 2)) * 31 + (c ? c->sh : 3)) ^ mix((u64)v ^ mix((u64)(v >> 64) + 77));
  htab[p] = e;
  ++hcount;
  return e;
}

static Expr* smallConst[129][4];
Expr* mkConst(u128 v, unsigned w) {
  v &= maskw(w);
  if (v < 4) {
    auto& e = smallConst[w][(int)v];
    if (!e) e = intern(Op::Const, w, 0, nullptr, nullptr, nullptr, v);
    return e;
  }
  return intern(Op::Const, w, 0, nullptr, nullptr, nullptr, v);
}
static std::unordered_map<std::string, Expr*> symTab;
Expr* mkSym(std::string const& name, unsigned w, bool undef) {
  auto key = name + "/" + std::to_string(w);
  auto it0 = symTab.find(key);
  if (it0 != symTab.end()) return it0->second;
  u32 id = g_syms.size();
  g_syms.push_back({name, w, undef, nullptr});
  auto e = intern(Op::Sym, w, id, nullptr, nullptr, nullptr, 0);
  e->syms = internSet({id});
  e->sh = mix(std::hash<std::string>{}(key));
  symTab.emplace(key, e);
  g_syms[id].e = e;
  return e;
}
Expr* mkTuple(std::vector<Expr*> const& el) {
  auto e = new (arenaAlloc(sizeof(Expr))) Expr();
  e->op = Op::Tuple; e->w = 0; e->aux = el.size(); e->a = e->b = e->c = nullptr; e->v = 0;
  e->id = (u32)++g_exprCount;
  e->elems = (Expr**)arenaAlloc(sizeof(Expr*) * (el.size() + 1));
  SymSet* s = nullptr;
  e->sh = mix(el.size() + 1234567);
  for (size_t i = 0; i < el.size(); ++i) {
    e->elems[i] = el[i];
    e->sh = mix(e->sh * 31 + (el[i] ? el[i]->sh : 5));
    if (el[i]) s = unionSet(s, el[i]->syms);
  }
  e->syms = s;
  return e;
}

// ---- FP helpers ----
static double asD(u128 v) { u64 x = (u64)v; double d; memcpy(&d, &x, 8); return d; }
static float asF(u128 v) { u32 x = (u32)v; float d; memcpy(&d, &x, 4); return d; }
static u128 fromD(double d) { u64 x; memcpy(&x, &d, 8); return x; }
static u128 fromF(float d) { u32 x; memcpy(&x, &d, 4); return x; }
static bool fcmp(unsigned p, double x, double y) {
  bool un = std::isnan(x) || std::isnan(y);
  bool r = false;
  if (p & 8) if (un) return true;
  if (un) return false;
  if (p & 1) r |= x == y;
  if (p & 2) r |= x > y;
  if (p & 4) r |= x < y;
  return r;
}

static u128 foldBin(Op op, u128 x, u128 y, unsigned w) {
  u128 m = maskw(w);
  switch (op) {
    case Op::Add: return (x + y) & m;
    case Op::Sub: return (x - y) & m;
    case Op::Mul: return (x * y) & m;
    case Op::UDiv: return y ? (x / y) : m;
    case Op::URem: return y ? (x % y) : x;
    case Op::SDiv: {
      i128 a = sextw(x, w), b = sextw(y, w);
      if (b == 0) return a < 0 ? 1 : m;
      if (b == -1) return (u128)(-(u128)a) & m;
      return (u128)(a / b) & m;
    }
    case Op::SRem: {
      i128 a = sextw(x, w), b = sextw(y, w);
      if (b == 0) return x;
      if (b == -1) return 0;
      return (u128)(a % b) & m;
    }
    case Op::And: return x & y;
    case Op::Or: return x | y;
    case Op::Xor: return x ^ y;
    case Op::Shl: return y >= w ? 0 : (x << (unsigned)y) & m;
    case Op::LShr: return y >= w ? 0 : x >> (unsigned)y;
    case Op::AShr: {
      i128 a = sextw(x, w);
      unsigned s = y >= w ? w - 1 : (unsigned)y;
      return (u128)(a >> s) & m;
    }
    case Op::Eq: return x == y;
    case Op::Ult: return x < y;
    case Op::Ule: return x <= y;
    case Op::Slt: return sextw(x, w) < sextw(y, w);
    case Op::Sle: return sextw(x, w) <= sextw(y, w);
    default: die("foldBin");
  }
}
static u128 foldF2(Op op, u128 x, u128 y, unsigned w) {
  if (w == 64) {
    double a = asD(x), b = asD(y);
    switch (op) {
      case Op::FAdd: return fromD(a + b);
      case Op::FSub: return fromD(a - b);
      case Op::FMul: return fromD(a * b);
      case Op::FDiv: return fromD(a / b);
      case Op::FRem: return fromD(std::fmod(a, b));
      default: die("foldF2");
    }
  }
  float a = asF(x), b = asF(y);
  switch (op) {
    case Op::FAdd: return fromF(a + b);
    case Op::FSub: return fromF(a - b);
    case Op::FMul: return fromF(a * b);
    case Op::FDiv: return fromF(a / b);
    case Op::FRem: return fromF(std::fmod(a, b));
    default: die("foldF2");
  }
}
static u128 foldF1(Op op, u128 x, unsigned sw, unsigned w) {
  switch (op) {
    case Op::SIToF: { i128 s = sextw(x, sw); return w == 64 ? fromD((double)s) : fromF((float)s); }
    case Op::UIToF: return w == 64 ? fromD((double)x) : fromF((float)x);
    default: break;
  }
  double d = sw == 64 ? asD(x) : (double)asF(x);
  auto ret = [&](double r) { return w == 64 ? fromD(r) : fromF((float)r); };
  switch (op) {
    case Op::FSqrt: return w == 64 ? fromD(std::sqrt(d)) : fromF(std::sqrt((float)d));
    case Op::FRoundA: return ret(std::round(d));
    case Op::FRoundE: return ret(std::nearbyint(d));
    case Op::FFloor: return ret(std::floor(d));
    case Op::FCeil: return ret(std::ceil(d));
    case Op::FTrunc: return ret(std::trunc(d));
    case Op::FConv: return ret(d);
    case Op::FToSI: {
      if (std::isnan(d)) return 0;
      double lim = std::ldexp(1.0, w - 1);
      d = std::trunc(d);
      if (d >= lim || d < -lim) return (u128(1) << (w - 1));
      return (u128)(i128)d & maskw(w);
    }
    case Op::FToUI: {
      if (std::isnan(d)) return 0;
      d = std::trunc(d);
      if (d < 0 || d >= std::ldexp(1.0, w)) return 0;
      return (u128)d & maskw(w);
    }
    default: die("foldF1");
  }
}

// upper bound (unsigned) that is cheap to know
u128 ubound(Expr* e, int depth) {
  switch (e->op) {
    case Op::Const: return e->v;
    case Op::ZExt: return ubound(e->a, depth);
    case Op::And:
      if (depth) return std::min(ubound(e->a, depth - 1), ubound(e->b, depth - 1));
      break;
    case Op::URem:
      if (e->b->isConst() && e->b->v) return e->b->v - 1;
      break;
    case Op::UDiv:
      if (depth && e->b->isConst() && e->b->v) return ubound(e->a, depth - 1) / e->b->v;
      break;
    case Op::LShr:
      if (depth && e->b->isConst() && e->b->v < e->w) return ubound(e->a, depth - 1) >> (unsigned)e->b->v;
      break;
    case Op::Add:
      if (depth && e->w < 128) {
        u128 x = ubound(e->a, depth - 1), y = ubound(e->b, depth - 1);
        if (x + y >= x && x + y <= maskw(e->w)) return x + y;
      }
      break;
    case Op::Ite:
      if (depth) return std::max(ubound(e->b, depth - 1), ubound(e->c, depth - 1));
      break;
    default: break;
  }
  return maskw(e->w);
}

Expr* mkNot(Expr* a) {
  if (a->isConst()) return mkBool(a->v == 0);
  if (a->op == Op::Xor && a->b->isConst()) return a->a;  // canonical not
  // push negation into comparisons
  switch (a->op) {
    case Op::Ult: return mkBin(Op::Ule, a->b, a->a);
    case Op::Ule: return mkBin(Op::Ult, a->b, a->a);
    case Op::Slt: return mkBin(Op::Sle, a->b, a->a);
    case Op::Sle: return mkBin(Op::Slt, a->b, a->a);
    default: break;
  }
  return intern(Op::Xor, 1, 0, a, mkBool(true), nullptr, 0);
}
static bool isNotOf(Expr* x, Expr* y) { return x->op == Op::Xor && x->w == 1 && x->a == y && x->b->isConst(); }
static bool compl_(Expr* x, Expr* y) {
  if (isNotOf(x, y) || isNotOf(y, x)) return true;
  if (x->op == Op::Ult && y->op == Op::Ult) {
    if (x->b->isConst() && y->a->isConst() && x->a == y->b) return y->a->v + 1 == x->b->v;
    if (x->a->isConst() && y->b->isConst() && x->b == y->a) return x->a->v + 1 == y->b->v;
  }
  if (x->op == Op::Ult && y->op == Op::Ule) return x->a == y->b && x->b == y->a;
  if (x->op == Op::Ule && y->op == Op::Ult) return x->a == y->b && x->b == y->a;
  if (x->op == Op::Slt && y->op == Op::Sle) return x->a == y->b && x->b == y->a;
  if (x->op == Op::Sle && y->op == Op::Slt) return x->a == y->b && x->b == y->a;
  return false;
}

Expr* mkBin(Op op, Expr* a, Expr* b) {
  unsigned w = a->w;
  if (a->w != b->w) die("width mismatch op %d: %u vs %u", (int)op, a->w, b->w);
  bool cmp = op >= Op::Eq && op <= Op::Sle;
  if (a->isConst() && b->isConst()) return mkConst(foldBin(op, a->v, b->v, w), cmp ? 1 : w);
  // canonical: constant right for commutative
  bool comm = op == Op::Add || op == Op::Mul || op == Op::And || op == Op::Or || op == Op::Xor || op == Op::Eq;
  if (comm && (a->isConst() || (!b->isConst() && a->id > b->id))) std::swap(a, b);
  bool bc = b->isConst();
  switch (op) {
    case Op::Add:
      if (w == 1) return mkBin(Op::Xor, a, b);
      if (bc && b->v == 0) return a;
      if (bc && a->op == Op::Add && a->b->isConst()) return mkBin(Op::Add, a->a, mkConst(a->b->v + b->v, w));
      if (!bc && a->op == Op::Add && a->b->isConst())
        return mkBin(Op::Add, mkBin(Op::Add, a->a, b), a->b);
      if (!bc && b->op == Op::Add && b->b->isConst())
        return mkBin(Op::Add, mkBin(Op::Add, a, b->a), b->b);
      if (bc && a->op == Op::Ite && a->b->isConst() && a->c->isConst())
        return mkIte(a->a, mkBin(Op::Add, a->b, b), mkBin(Op::Add, a->c, b));
      if (a->op == Op::Sub && a->b == b) return a->a;
      if (b->op == Op::Sub && b->b == a) return b->a;
      break;
    case Op::Sub:
      if (w == 1) return mkBin(Op::Xor, a, b);
      if (a == b) return mkConst(0, w);
      if (bc) return mkBin(Op::Add, a, mkConst(-b->v, w));
      if (a->op == Op::Add) {
        if (a->b == b) return a->a;
        if (a->a == b) return a->b;
        if (a->b->isConst()) {
          if (b->op == Op::Add && b->b->isConst())
            return mkBin(Op::Add, mkBin(Op::Sub, a->a, b->a), mkConst(a->b->v - b->b->v, w));
          return mkBin(Op::Add, mkBin(Op::Sub, a->a, b), a->b);
        }
      }
      if (b->op == Op::Add && b->b->isConst())
        return mkBin(Op::Add, mkBin(Op::Sub, a, b->a), mkConst(-b->b->v, w));
      break;
    case Op::Mul:
      if (w == 1) return mkBin(Op::And, a, b);
      if (bc && b->v == 0) return b;
      if (bc && b->v == 1) return a;
      if (bc && b->v == maskw(w)) return mkBin(Op::Sub, mkConst(0, w), a);
      if (bc && (b->v & (b->v - 1)) == 0) {
        unsigned s = 0;
        while (!((b->v >> s) & 1)) ++s;
        return mkBin(Op::Shl, a, mkConst(s, w));
      }
      break;
    case Op::UDiv:
      if (bc && b->v == 1) return a;
      if (bc && b->v && ubound(a) < b->v) return mkConst(0, w);
      if (bc && b->v && (b->v & (b->v - 1)) == 0) {
        unsigned s = 0;
        while (!((b->v >> s) & 1)) ++s;
        return mkBin(Op::LShr, a, mkConst(s, w));
      }
      break;
    case Op::URem:
      if (bc && b->v && ubound(a) < b->v) return a;
      if (bc && b->v && (b->v & (b->v - 1)) == 0) return mkBin(Op::And, a, mkConst(b->v - 1, w));
      break;
    case Op::And:
      if (a == b) return a;
      if (bc && b->v == 0) return b;
      if (bc && b->v == maskw(w)) return a;
      if (w == 1) {
        if (compl_(a, b)) return mkBool(false);
        if (a->op == Op::And && (a->a == b || a->b == b)) return a;
        if (b->op == Op::And && (b->a == a || b->b == a)) return b;
        if (a->op == Op::Or && (a->a == b || a->b == b)) return b;
        if (b->op == Op::Or && (b->a == a || b->b == a)) return a;
      }
      if (bc && a->op == Op::And && a->b->isConst()) return mkBin(Op::And, a->a, mkConst(a->b->v & b->v, w));
      if (bc && (b->v & (b->v + 1)) == 0 && ubound(a) <= b->v) return a;
      if (bc && a->op == Op::ZExt && w <= 128) {
        return mkZExt(mkBin(Op::And, a->a, mkConst(b->v, a->a->w)), w);
      }
      if (bc && a->op == Op::Ite && a->b->isConst() && a->c->isConst())
        return mkIte(a->a, mkBin(Op::And, a->b, b), mkBin(Op::And, a->c, b));
      break;
    case Op::Or:
      if (a == b) return a;
      if (bc && b->v == 0) return a;
      if (bc && b->v == maskw(w)) return b;
      if (w == 1) {
        if (compl_(a, b)) return mkBool(true);
        if (a->op == Op::Or && (a->a == b || a->b == b)) return a;
        if (b->op == Op::Or && (b->a == a || b->b == a)) return b;
        if (a->op == Op::And && (a->a == b || a->b == b)) return b;
        if (b->op == Op::And && (b->a == a || b->b == a)) return a;
        // (x & p) | (x & !p) = x
        if (a->op == Op::And && b->op == Op::And) {
          if (a->a == b->a && compl_(a->b, b->b)) return a->a;
          if (a->a == b->b && compl_(a->b, b->a)) return a->a;
          if (a->b == b->a && compl_(a->a, b->b)) return a->b;
          if (a->b == b->b && compl_(a->a, b->a)) return a->b;
        }
      }
      break;
    case Op::Xor:
      if (a == b) return mkConst(0, w);
      if (bc && b->v == 0) return a;
      if (w == 1 && bc) return mkNot(a);
      if (bc && a->op == Op::Xor && a->b->isConst()) return mkBin(Op::Xor, a->a, mkConst(a->b->v ^ b->v, w));
      break;
    case Op::Shl:
    case Op::LShr:
    case Op::AShr:
      if (bc && b->v == 0) return a;
      if (bc && b->v >= w && op != Op::AShr) return mkConst(0, w);
      if (a->isConst() && a->v == 0) return a;
      if (op == Op::LShr && bc && a->op == Op::ZExt && b->v >= a->a->w) return mkConst(0, w);
      if (op == Op::LShr && bc) {
        // lshr by constant = zext(extract)
        unsigned s = (unsigned)b->v;
        return mkZExt(mkExtract(a, s, w - s), w);
      }
      if (op == Op::Shl && bc) {
        unsigned s = (unsigned)b->v;
        return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
      }
      break;
    case Op::Eq:
      if (a == b) return mkBool(true);
      if (w == 1) {
        if (bc) return b->v ? a : mkNot(a);
        return mkNot(mkBin(Op::Xor, a, b));
      }
      if (bc) {
        if (a->op == Op::ZExt) {
          if (b->v >> a->a->w) return mkBool(false);
          return mkBin(Op::Eq, a->a, mkConst(b->v, a->a->w));
        }
        if (a->op == Op::SExt) {
          u128 t = b->v & maskw(a->a->w);
          if (((u128)sextw(t, a->a->w) & maskw(w)) != b->v) return mkBool(false);
          return mkBin(Op::Eq, a->a, mkConst(t, a->a->w));
        }
        if (a->op == Op::Add && a->b->isConst()) return mkBin(Op::Eq, a->a, mkConst(b->v - a->b->v, w));
        if (a->op == Op::Xor && a->b->isConst()) return mkBin(Op::Eq, a->a, mkConst(b->v ^ a->b->v, w));
        if (a->op == Op::Sub && b->v == 0) return mkBin(Op::Eq, a->a, a->b);
        if (a->op == Op::Ite && (a->b->isConst() || a->c->isConst())) {
          auto x = mkBin(Op::Eq, a->b, b), y = mkBin(Op::Eq, a->c, b);
          return mkIte(a->a, x, y);
        }
        if (a->op == Op::Concat) {
          unsigned lw = a->b->w;
          if (a->a->isConst() || a->b->isConst())
            return mkAnd(mkBin(Op::Eq, a->a, mkConst(b->v >> lw, a->a->w)),
                         mkBin(Op::Eq, a->b, mkConst(b->v, lw)));
        }
        if (ubound(a) < b->v) return mkBool(false);
      } else {
        if (a->op == Op::ZExt && b->op == Op::ZExt && a->a->w == b->a->w) return mkBin(Op::Eq, a->a, b->a);
        if (a->op == Op::SExt && b->op == Op::SExt && a->a->w == b->a->w) return mkBin(Op::Eq, a->a, b->a);
        if (a->op == Op::Add && a->b->isConst()) {
          if (a->a == b) return mkBool(a->b->v == 0);
          if (b->op == Op::Add && b->b->isConst())
            return mkBin(Op::Eq, mkBin(Op::Add, a->a, mkConst(a->b->v - b->b->v, w)), b->a);
        }
        if (b->op == Op::Add && b->b->isConst() && b->a == a) return mkBool(b->b->v == 0);
      }
      break;
    case Op::Ult:
      if (a == b) return mkBool(false);
      if (bc && b->v == 0) return mkBool(false);
      if (a->isConst() && a->v == maskw(w)) return mkBool(false);
      if (w == 1) return mkAnd(mkNot(a), b);
      if (bc && ubound(a) < b->v) return mkBool(true);
      if (a->isConst() && ubound(b) <= a->v) return mkBool(false);
      if (bc && b->v == 1) return mkBin(Op::Eq, a, mkConst(0, w));
      if (a->isConst() && a->v == 0) return mkNot(mkBin(Op::Eq, b, a));
      if (a->op == Op::ZExt && b->op == Op::ZExt && a->a->w == b->a->w) return mkBin(op, a->a, b->a);
      if (a->op == Op::SExt && b->op == Op::SExt && a->a->w == b->a->w) return mkBin(op, a->a, b->a);
      if (bc && a->op == Op::ZExt) return mkBin(op, a->a, mkConst(b->v, a->a->w));
      if (a->isConst() && b->op == Op::ZExt) return mkBin(op, mkConst(a->v, b->a->w), b->a);
      if (bc && a->op == Op::Ite && a->b->isConst() && a->c->isConst())
        return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
      break;
    case Op::Ule:
      if (a == b) return mkBool(true);
      if (w == 1) return mkOr(mkNot(a), b);
      if (a->isConst() && a->v == 0) return mkBool(true);
      if (bc && ubound(a) <= b->v) return mkBool(true);
      if (a->isConst() && ubound(b) < a->v) return mkBool(false);
      if (bc) return mkBin(Op::Ult, a, mkConst(b->v + 1, w));
      if (a->isConst()) return mkBin(Op::Ult, mkConst(a->v - 1, w), b);
      if (a->op == Op::ZExt && b->op == Op::ZExt && a->a->w == b->a->w) return mkBin(op, a->a, b->a);
      if (a->op == Op::SExt && b->op == Op::SExt && a->a->w == b->a->w) return mkBin(op, a->a, b->a);
      break;
    case Op::Slt:
    case Op::Sle: {
      if (a == b) return mkBool(op == Op::Sle);
      if (w == 1) {
        // signed 1 bit: 1 means -1
        return op == Op::Slt ? mkAnd(a, mkNot(b)) : mkOr(a, mkNot(b));
      }
      u128 sm = maskw(w - 1);
      u128 ua = ubound(a), ub = ubound(b);
      if (ua <= sm && ub <= sm) return mkBin(op == Op::Slt ? Op::Ult : Op::Ule, a, b);
      if (ua <= sm && bc) return mkBool(false);            // b negative constant
      if (ub <= sm && a->isConst()) return mkBool(true);   // a negative constant
      if (a->op == Op::SExt && b->op == Op::SExt && a->a->w == b->a->w) return mkBin(op, a->a, b->a);
      auto narrow = [&](Expr* x, Expr* k, bool kRight) -> Expr* {
        // x = sext(y); k constant
        unsigned nw = x->a->w;
        i128 kv = sextw(k->v, w);
        i128 lo = -((i128)1 << (nw - 1)), hi = ((i128)1 << (nw - 1)) - 1;
        if (kRight) {
          if (op == Op::Slt) { if (kv > hi) return mkBool(true); if (kv <= lo) return mkBool(false); }
          else { if (kv >= hi) return mkBool(true); if (kv < lo) return mkBool(false); }
          return mkBin(op, x->a, mkConst((u128)kv, nw));
        } else {
          if (op == Op::Slt) { if (kv >= hi) return mkBool(false); if (kv < lo) return mkBool(true); }
          else { if (kv > hi) return mkBool(false); if (kv <= lo) return mkBool(true); }
          return mkBin(op, mkConst((u128)kv, nw), x->a);
        }
      };
      if (bc && a->op == Op::SExt) return narrow(a, b, true);
      if (a->isConst() && b->op == Op::SExt) return narrow(b, a, false);
      break;
    }
    default: break;
  }
  return intern(op, cmp ? 1 : w, 0, a, b, nullptr, 0);
}

Expr* mkIte(Expr* c, Expr* a, Expr* b) {
  if (c->isConst()) return c->v ? a : b;
  if (a == b) return a;
  if (a->op == Op::Tuple) {
    std::vector<Expr*> el;
    for (u32 i = 0; i < a->aux; ++i) el.push_back(mkIte(c, a->elems[i], b->elems[i]));
    return mkTuple(el);
  }
  if (a->w != b->w) die("ite width mismatch %u %u", a->w, b->w);
  if (isNotOf(c, c->a)) { c = c->a; std::swap(a, b); }
  if (a->w == 1) {
    if (a->isConst()) return a->v ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (b->isConst()) return b->v ? mkOr(mkNot(c), a) : mkAnd(c, a);
    if (a == c) return mkOr(c, b);
    if (b == c) return mkAnd(c, a);
  }
  if (a->op == Op::Ite && a->a == c) a = a->b;
  if (b->op == Op::Ite && b->a == c) b = b->c;
  if (a == b) return a;
  return intern(Op::Ite, a->w, 0, c, a, b, 0);
}
Expr* mkZExt(Expr* a, unsigned w) {
  if (w == a->w) return a;
  if (w < a->w) return mkExtract(a, 0, w);
  if (a->isConst()) return mkConst(a->v, w);
  if (a->op == Op::ZExt) return mkZExt(a->a, w);
  if (a->op == Op::Ite && a->b->isConst() && a->c->isConst())
    return mkIte(a->a, mkConst(a->b->v, w), mkConst(a->c->v, w));
  return intern(Op::ZExt, w, 0, a, nullptr, nullptr, 0);
}
Expr* mkSExt(Expr* a, unsigned w) {
  if (w == a->w) return a;
  if (w < a->w) return mkExtract(a, 0, w);
  if (a->isConst()) return mkConst((u128)sextw(a->v, a->w), w);
  if (a->op == Op::SExt) return mkSExt(a->a, w);
  if (a->op == Op::ZExt) return mkZExt(a->a, w);
  if (a->op == Op::Ite && a->b->isConst() && a->c->isConst())
    return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
  return intern(Op::SExt, w, 0, a, nullptr, nullptr, 0);
}
static Expr* extract(Expr* a, unsigned lo, unsigned w);
Expr* mkExtract(Expr* a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (lo + w > a->w) die("extract out of range");
  if (a->isConst()) return mkConst(a->v >> lo, w);
  switch (a->op) {
    case Op::Ite: case Op::And: case Op::Or: case Op::Xor: case Op::Add: case Op::Mul: case Op::Sub: case Op::Concat: break;
    default: return extract(a, lo, w);
  }
  // these descend into several operands: remember the result (shared subterms)
  static std::unordered_map<u64, std::unordered_map<Expr*, Expr*>> memo;
  auto& m = memo[(u64)lo << 32 | w];
  auto it = m.find(a);
  if (it != m.end()) return it->second;
  auto r = extract(a, lo, w);
  memo[(u64)lo << 32 | w][a] = r;
  return r;
}
static Expr* extract(Expr* a, unsigned lo, unsigned w) {
  switch (a->op) {
    case Op::Extract: return mkExtract(a->a, a->aux + lo, w);
    case Op::Concat: {
      unsigned lw = a->b->w;
      if (lo >= lw) return mkExtract(a->a, lo - lw, w);
      if (lo + w <= lw) return mkExtract(a->b, lo, w);
      return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo));
    }
    case Op::ZExt: {
      unsigned sw = a->a->w;
      if (lo >= sw) return mkConst(0, w);
      if (lo + w <= sw) return mkExtract(a->a, lo, w);
      return mkZExt(mkExtract(a->a, lo, sw - lo), w);
    }
    case Op::SExt: {
      unsigned sw = a->a->w;
      if (lo + w <= sw) return mkExtract(a->a, lo, w);
      if (lo == 0) return mkSExt(a->a, w);
      break;
    }
    case Op::Ite:
      if (a->b->isConst() || a->c->isConst())
        return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
      break;
    case Op::And: case Op::Or: case Op::Xor:
      return mkBin(a->op, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
    case Op::Add: case Op::Mul: case Op::Sub:
      if (lo == 0 && a->op == Op::Add) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
      if (lo == 0) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
      break;
    default: break;
  }
  return intern(Op::Extract, w, lo, a, nullptr, nullptr, 0);
}
Expr* mkConcat(Expr* hi, Expr* lo) {
  if (hi->w == 0) return lo;
  if (lo->w == 0) return hi;
  unsigned w = hi->w + lo->w;
  if (w > 128) die("concat too wide");
  if (hi->isConst() && lo->isConst()) return mkConst((hi->v << lo->w) | lo->v, w);
  if (hi->isConst() && hi->v == 0) return mkZExt(lo, w);
  // adjacent extracts
  if (hi->op == Op::Extract && lo->op == Op::Extract && hi->a == lo->a && hi->aux == lo->aux + lo->w)
    return mkExtract(hi->a, lo->aux, w);
  if (hi->op == Op::Extract && hi->a == lo && hi->aux == lo->w) return mkExtract(lo, 0, w);  // unreachable in practice
  // concat(x, concat(y,z)) with x,y mergeable
  if (lo->op == Op::Concat && hi->op == Op::Extract && lo->a->op == Op::Extract && hi->a == lo->a->a &&
      hi->aux == lo->a->aux + lo->a->w)
    return mkConcat(mkExtract(hi->a, lo->a->aux, hi->w + lo->a->w), lo->b);
  if (hi->op == Op::Ite && lo->op == Op::Ite && hi->a == lo->a)
    return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
  // zext(x) ++ y  stays
  if (hi->op == Op::ZExt) return mkZExt(mkConcat(hi->a, lo), w);
  return intern(Op::Concat, w, 0, hi, lo, nullptr, 0);
}
// ---- floating point values that are small integers: computed exactly
struct IB { i128 lo, hi; };
static IB sbound(Expr* e) {
  static std::unordered_map<Expr*, IB> memo;
  if (e->w > 64) return {-(i128(1) << 100), i128(1) << 100};
  IB full{-(i128(1) << (e->w - 1)), (i128(1) << (e->w - 1)) - 1};
  if (e->isConst()) { i128 v = sextw(e->v, e->w); return {v, v}; }
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  IB r = full;
  switch (e->op) {
    case Op::ZExt: r = {0, (i128)ubound(e->a)}; break;
    case Op::SExt: r = sbound(e->a); break;
    case Op::Ite: { auto x = sbound(e->b), y = sbound(e->c); r = {std::min(x.lo, y.lo), std::max(x.hi, y.hi)}; break; }
    case Op::Add: { auto x = sbound(e->a), y = sbound(e->b); r = {x.lo + y.lo, x.hi + y.hi}; break; }
    case Op::Sub: { auto x = sbound(e->a), y = sbound(e->b); r = {x.lo - y.hi, x.hi - y.lo}; break; }
    case Op::Shl: {
      auto x = sbound(e->a);
      if (e->b->isConst() && e->b->v < 60) { i128 m = i128(1) << (unsigned)e->b->v; r = {x.lo * m, x.hi * m}; }
      break;
    }
    case Op::Mul: {
      auto x = sbound(e->a), y = sbound(e->b);
      auto lim = i128(1) << 62;
      if (x.lo < -lim || x.hi > lim || y.lo < -lim || y.hi > lim) break;
      i128 v[] = {x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi};
      r = {std::min(std::min(v[0], v[1]), std::min(v[2], v[3])), std::max(std::max(v[0], v[1]), std::max(v[2], v[3]))};
      break;
    }
    default: break;
  }
  if (r.lo < full.lo || r.hi > full.hi) r = full;
  memo[e] = r;
  return r;
}
static bool fitsF(Expr* i, unsigned w) {
  auto b = sbound(i);
  i128 lim = i128(1) << (w == 64 ? 53 : 24);
  return b.lo >= -lim && b.hi <= lim;
}
// e is exactly the integer i (never a negative zero unless loose)
static bool asInt(Expr* e, Expr*& i, bool loose = false) {
  if (e->op == Op::SIToF) { i = mkSExt(e->a, 64); return e->a->w <= 64 && fitsF(i, e->w); }
  if (e->op == Op::UIToF) { if (e->a->w >= 64) return false; i = mkZExt(e->a, 64); return fitsF(i, e->w); }
  if (e->isConst()) {
    double d = e->w == 64 ? asD(e->v) : asF(e->v);
    if (!(d >= -16777216.0 && d <= 16777216.0) || d != (double)(long)d || (d == 0 && std::signbit(d) && !loose)) return false;
    i = mkConst((u128)(i128)(long)d, 64);
    return true;
  }
  if (loose) {
    Expr* x = nullptr;
    if (e->op == Op::FMul && e->b->isConst() && asInt(e->a, x) && asInt(e->b, i)) { i = mkBin(Op::Mul, x, i); return fitsF(i, e->w); }
    if (e->op == Op::FMul && e->a->isConst() && asInt(e->b, x) && asInt(e->a, i)) { i = mkBin(Op::Mul, x, i); return fitsF(i, e->w); }
    if (e->op == Op::Xor && e->b->isConst() && e->b->v == u128(1) << (e->w - 1) && asInt(e->a, x)) { i = mkBin(Op::Sub, mkConst(0, 64), x); return fitsF(i, e->w); }
  }
  return false;
}
Expr* mkF1(Op op, Expr* a, unsigned w) {
  if (op == Op::FConv && a->w == w) return a;
  if (!a->isConst()) {
    Expr* i = nullptr;
    if (op == Op::SIToF && a->w < 64) return mkF1(op, mkSExt(a, 64), w);
    if (op == Op::UIToF && a->w < 64) return mkF1(Op::SIToF, mkZExt(a, 64), w);
    if (op == Op::FConv && asInt(a, i) && fitsF(i, w)) return mkF1(Op::SIToF, i, w);
    if (op == Op::FToSI && asInt(a, i)) {
      auto b = sbound(i);
      if (w <= 64 && b.lo >= -(i128(1) << (w - 1)) && b.hi < (i128(1) << (w - 1))) return mkExtract(i, 0, w);
    }
    if ((op == Op::FFloor || op == Op::FCeil || op == Op::FTrunc || op == Op::FRoundA || op == Op::FRoundE) && asInt(a, i)) return a;
  }
  if (a->isConst()) return mkConst(foldF1(op, a->v, a->w, w), w);
  return intern(op, w, 0, a, nullptr, nullptr, 0);
}
Expr* mkF2(Op op, Expr* a, Expr* b) {
  if (a->isConst() && b->isConst()) return mkConst(foldF2(op, a->v, b->v, a->w), a->w);
  if ((op == Op::FAdd || op == Op::FMul) && a->id > b->id) std::swap(a, b);
  // x * 1.0 = x up to NaN payload (quieting); exact for our uses
  u128 one = a->w == 64 ? fromD(1.0) : fromF(1.0f);
  if (op == Op::FMul && a->isConst() && a->v == one) return b;
  if (op == Op::FMul && b->isConst() && b->v == one) return a;
  if (op == Op::FAdd || op == Op::FSub || op == Op::FMul) {
    Expr *x = nullptr, *y = nullptr;
    if (asInt(a, x) && asInt(b, y)) {
      bool ok = true;
      if (op == Op::FMul) {
        auto p = sbound(x), q = sbound(y);
        ok = (p.lo >= 0 && q.lo >= 0) || p.lo > 0 || q.lo > 0;
      }
      auto r = mkBin(op == Op::FAdd ? Op::Add : op == Op::FSub ? Op::Sub : Op::Mul, x, y);
      if (ok && fitsF(r, a->w)) return mkF1(Op::SIToF, r, a->w);
    }
  }
  return intern(op, a->w, 0, a, b, nullptr, 0);
}
Expr* mkFCmp(unsigned pred, Expr* a, Expr* b) {
  if (pred == 0) return mkBool(false);
  if (pred == 15) return mkBool(true);
  if (a->isConst() && b->isConst()) {
    double x = a->w == 64 ? asD(a->v) : asF(a->v), y = b->w == 64 ? asD(b->v) : asF(b->v);
    return mkBool(fcmp(pred, x, y));
  }
  Expr *x = nullptr, *y = nullptr;
  if (asInt(a, x, true) && asInt(b, y, true)) switch (pred & 7) {
      case 1: return mkBin(Op::Eq, x, y);
      case 2: return mkBin(Op::Slt, y, x);
      case 3: return mkBin(Op::Sle, y, x);
      case 4: return mkBin(Op::Slt, x, y);
      case 5: return mkBin(Op::Sle, x, y);
      case 6: return mkNot(mkBin(Op::Eq, x, y));
      case 7: return mkBool(true);
      case 0: return mkBool(false);
    }
  return intern(Op::FCmp, 1, pred, a, b, nullptr, 0);
}

u128 evalExpr(Expr* e, Model const& m) {
  if (e->op == Op::Const) return e->v;
  if (!e->syms) {}
  if (e->evEpoch == m.epoch) return e->ev;
  u128 r;
  switch (e->op) {
    case Op::Sym: r = m.get(e->aux) & maskw(e->w); break;
    case Op::Ite: r = evalExpr(e->a, m) ? evalExpr(e->b, m) : evalExpr(e->c, m); break;
    case Op::ZExt: r = evalExpr(e->a, m); break;
    case Op::SExt: r = (u128)sextw(evalExpr(e->a, m), e->a->w) & maskw(e->w); break;
    case Op::Extract: r = (evalExpr(e->a, m) >> e->aux) & maskw(e->w); break;
    case Op::Concat: r = (evalExpr(e->a, m) << e->b->w) | evalExpr(e->b, m); break;
    case Op::FCmp: {
      u128 x = evalExpr(e->a, m), y = evalExpr(e->b, m);
      r = e->a->w == 64 ? fcmp(e->aux, asD(x), asD(y)) : fcmp(e->aux, asF(x), asF(y));
      break;
    }
    case Op::FAdd: case Op::FSub: case Op::FMul: case Op::FDiv: case Op::FRem:
      r = foldF2(e->op, evalExpr(e->a, m), evalExpr(e->b, m), e->w);
      break;
    case Op::FSqrt: case Op::FRoundA: case Op::FRoundE: case Op::FFloor: case Op::FCeil: case Op::FTrunc:
    case Op::FToSI: case Op::FToUI: case Op::SIToF: case Op::UIToF: case Op::FConv:
      r = foldF1(e->op, evalExpr(e->a, m), e->a->w, e->w);
      break;
    default: {
      u128 x = evalExpr(e->a, m);
      if (e->w == 1 && e->a->w == 1) {
        if (e->op == Op::And && !x) { r = 0; break; }
        if (e->op == Op::Or && x) { r = 1; break; }
      }
      r = foldBin(e->op, x, evalExpr(e->b, m), e->a->w);
    }
  }
  e->evEpoch = m.epoch;
  e->ev = r;
  return r;
}

u8 const* truthTable(Expr* e) {
  if (e->table) return e->table;
  auto t = (u8*)arenaAlloc(32);
  memset(t, 0, 32);
  u32 s = e->syms->ids[0];
  unsigned n = 1u << g_syms[s].w;
  static Model m;
  for (unsigned v = 0; v < n; ++v) {
    m.epoch = newEpoch();
    m.set(s, v);
    if (evalExpr(e, m)) t[v >> 3] |= 1 << (v & 7);
  }
  e->table = t;
  return t;
}

Expr* substSyms(Expr* e, std::unordered_map<u32, Expr*> const& mp, std::unordered_map<Expr*, Expr*>& memo) {
  if (!e->syms || !e->syms->hasUndef) return e;
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  Expr* r;
  auto S = [&](Expr* x) { return substSyms(x, mp, memo); };
  switch (e->op) {
    case Op::Sym: { auto f = mp.find(e->aux); r = f == mp.end() ? e : f->second; break; }
    case Op::Ite: r = mkIte(S(e->a), S(e->b), S(e->c)); break;
    case Op::ZExt: r = mkZExt(S(e->a), e->w); break;
    case Op::SExt: r = mkSExt(S(e->a), e->w); break;
    case Op::Extract: r = mkExtract(S(e->a), e->aux, e->w); break;
    case Op::Concat: r = mkConcat(S(e->a), S(e->b)); break;
    case Op::FCmp: r = mkFCmp(e->aux, S(e->a), S(e->b)); break;
    case Op::FAdd: case Op::FSub: case Op::FMul: case Op::FDiv: case Op::FRem: r = mkF2(e->op, S(e->a), S(e->b)); break;
    case Op::FSqrt: case Op::FRoundA: case Op::FRoundE: case Op::FFloor: case Op::FCeil: case Op::FTrunc:
    case Op::FToSI: case Op::FToUI: case Op::SIToF: case Op::UIToF: case Op::FConv: r = mkF1(e->op, S(e->a), e->w); break;
    default: r = mkBin(e->op, S(e->a), S(e->b));
  }
  memo[e] = r;
  return r;
}

Expr* replaceExpr(Expr* e, Expr* from, Expr* to, std::unordered_map<Expr*, Expr*>& memo) {
  if (e == from) return to;
  if (e->op == Op::Const || e->op == Op::Sym || e->op == Op::Uninit || e->id < from->id) return e;  // operands are older
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  Expr* r;
  auto S = [&](Expr* x) { return replaceExpr(x, from, to, memo); };
  switch (e->op) {
    case Op::Ite: r = mkIte(S(e->a), S(e->b), S(e->c)); break;
    case Op::ZExt: r = mkZExt(S(e->a), e->w); break;
    case Op::SExt: r = mkSExt(S(e->a), e->w); break;
    case Op::Extract: r = mkExtract(S(e->a), e->aux, e->w); break;
    case Op::Concat: r = mkConcat(S(e->a), S(e->b)); break;
    case Op::FCmp: r = mkFCmp(e->aux, S(e->a), S(e->b)); break;
    case Op::FAdd: case Op::FSub: case Op::FMul: case Op::FDiv: case Op::FRem: r = mkF2(e->op, S(e->a), S(e->b)); break;
    case Op::FSqrt: case Op::FRoundA: case Op::FRoundE: case Op::FFloor: case Op::FCeil: case Op::FTrunc:
    case Op::FToSI: case Op::FToUI: case Op::SIToF: case Op::UIToF: case Op::FConv: r = mkF1(e->op, S(e->a), e->w); break;
    case Op::Tuple: {
      std::vector<Expr*> el;
      for (u32 i = 0; i < e->aux; ++i) el.push_back(S(e->elems[i]));
      r = mkTuple(el);
      break;
    }
    default: r = mkBin(e->op, S(e->a), S(e->b));
  }
  memo[e] = r;
  return r;
}
Expr* flagOf(Expr* e, int depth) {
  if (e->isConst() || depth == 0) return nullptr;
  switch (e->op) {
    case Op::ZExt: case Op::SExt:
      if (e->a->w == 1) return e->a;
      return flagOf(e->a, depth - 1);
    case Op::Extract: return flagOf(e->a, depth - 1);
    case Op::Ite: return e->b->isConst() && e->c->isConst() ? e->a : nullptr;
    case Op::Add: case Op::Sub: case Op::Mul: {
      if (!e->a->isConst() && !e->b->isConst() && e->op == Op::Mul) return nullptr;
      auto x = flagOf(e->a, depth - 1);
      return x ? x : flagOf(e->b, depth - 1);
    }
    default: return nullptr;
  }
}

std::string exprStr(Expr* e, int d) {
  static const char* n[] = {"const","sym","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","zext","sext","extract","concat","fadd","fsub","fmul","fdiv","frem","fsqrt","frnda","frnde","ffloor","fceil","ftrunc","fcmp","ftosi","ftoui","sitof","uitof","fconv","tuple","uninit"};
  if (!e) return "null";
  char b[64];
  if (e->op == Op::Const) { snprintf(b, 64, "0x%llx:%u", (unsigned long long)e->v, e->w); return b; }
  if (e->op == Op::Sym) return g_syms[e->aux].name;
  if (d == 0) return "...";
  std::string s = std::string("(") + n[(int)e->op];
  if (e->op == Op::Extract || e->op == Op::FCmp) s += "@" + std::to_string(e->aux);
  if (e->a) s += " " + exprStr(e->a, d - 1);
  if (e->b) s += " " + exprStr(e->b, d - 1);
  if (e->c) s += " " + exprStr(e->c, d - 1);
  return s + ")";
}

// ================= Z3 ======================
static Z3_context ctx;
static Z3_solver slv = nullptr;
static unsigned tmo, hardTmo;
static std::unordered_map<Expr*, Z3_ast> guardLit;  // constraint -> assumption literal
static Z3_ast mkFP(Expr* e);
static Z3_ast mkBVz(Expr* e);
static Z3_ast mkBoolz(Expr* e);

static void z3err(Z3_context c, Z3_error_code e) { die("z3 error: %s", Z3_get_error_msg(c, e)); }

void solverInit(unsigned t, unsigned ht) {
  Z3_config cfg = Z3_mk_config();
  ctx = Z3_mk_context(cfg);
  Z3_del_config(cfg);
  Z3_set_error_handler(ctx, z3err);
  tmo = t;
  hardTmo = ht;
}
static Z3_sort fsort(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_64(ctx) : Z3_mk_fpa_sort_32(ctx); }
static Z3_ast num(u128 v, unsigned w) {
  if (w <= 64) return Z3_mk_unsigned_int64(ctx, (u64)v, Z3_mk_bv_sort(ctx, w));
  Z3_ast hi = Z3_mk_unsigned_int64(ctx, (u64)(v >> 64), Z3_mk_bv_sort(ctx, w - 64));
  Z3_ast lo = Z3_mk_unsigned_int64(ctx, (u64)v, Z3_mk_bv_sort(ctx, 64));
  return Z3_mk_concat(ctx, hi, lo);
}
static Z3_ast mkFP(Expr* e) {
  if (e->zfp) return e->zfp;
  Z3_ast r;
  Z3_ast rne = Z3_mk_fpa_rne(ctx);
  switch (e->op) {
    case Op::FAdd: r = Z3_mk_fpa_add(ctx, rne, mkFP(e->a), mkFP(e->b)); break;
    case Op::FSub: r = Z3_mk_fpa_sub(ctx, rne, mkFP(e->a), mkFP(e->b)); break;
    case Op::FMul: r = Z3_mk_fpa_mul(ctx, rne, mkFP(e->a), mkFP(e->b)); break;
    case Op::FDiv: r = Z3_mk_fpa_div(ctx, rne, mkFP(e->a), mkFP(e->b)); break;
    case Op::FRem: die("frem not supported symbolically");
    case Op::FSqrt: r = Z3_mk_fpa_sqrt(ctx, rne, mkFP(e->a)); break;
    case Op::FRoundA: r = Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rna(ctx), mkFP(e->a)); break;
    case Op::FRoundE: r = Z3_mk_fpa_round_to_integral(ctx, rne, mkFP(e->a)); break;
    case Op::FFloor: r = Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rtn(ctx), mkFP(e->a)); break;
    case Op::FCeil: r = Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rtp(ctx), mkFP(e->a)); break;
    case Op::FTrunc: r = Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rtz(ctx), mkFP(e->a)); break;
    case Op::SIToF: r = Z3_mk_fpa_to_fp_signed(ctx, rne, mkBVz(e->a), fsort(e->w)); break;
    case Op::UIToF: r = Z3_mk_fpa_to_fp_unsigned(ctx, rne, mkBVz(e->a), fsort(e->w)); break;
    case Op::FConv: r = Z3_mk_fpa_to_fp_float(ctx, rne, mkFP(e->a), fsort(e->w)); break;
    case Op::Ite: r = Z3_mk_ite(ctx, mkBoolz(e->a), mkFP(e->b), mkFP(e->c)); break;
    default: r = Z3_mk_fpa_to_fp_bv(ctx, mkBVz(e), fsort(e->w));
  }
  Z3_inc_ref(ctx, r);
  return e->zfp = r;
}
static Z3_ast mkBoolz(Expr* e) {
  if (e->zbool) return e->zbool;
  Z3_ast r;
  switch (e->op) {
    case Op::Const: r = e->v ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
    case Op::And: { Z3_ast x[2] = {mkBoolz(e->a), mkBoolz(e->b)}; r = Z3_mk_and(ctx, 2, x); break; }
    case Op::Or: { Z3_ast x[2] = {mkBoolz(e->a), mkBoolz(e->b)}; r = Z3_mk_or(ctx, 2, x); break; }
    case Op::Xor:
      if (e->b->isConst()) r = Z3_mk_not(ctx, mkBoolz(e->a));
      else r = Z3_mk_xor(ctx, mkBoolz(e->a), mkBoolz(e->b));
      break;
    case Op::Ite: r = Z3_mk_ite(ctx, mkBoolz(e->a), mkBoolz(e->b), mkBoolz(e->c)); break;
    case Op::Eq: r = Z3_mk_eq(ctx, mkBVz(e->a), mkBVz(e->b)); break;
    case Op::Ult: r = Z3_mk_bvult(ctx, mkBVz(e->a), mkBVz(e->b)); break;
    case Op::Ule: r = Z3_mk_bvule(ctx, mkBVz(e->a), mkBVz(e->b)); break;
    case Op::Slt: r = Z3_mk_bvslt(ctx, mkBVz(e->a), mkBVz(e->b)); break;
    case Op::Sle: r = Z3_mk_bvsle(ctx, mkBVz(e->a), mkBVz(e->b)); break;
    case Op::FCmp: {
      Z3_ast x = mkFP(e->a), y = mkFP(e->b);
      Z3_ast nanx[2] = {Z3_mk_fpa_is_nan(ctx, x), Z3_mk_fpa_is_nan(ctx, y)};
      Z3_ast un = Z3_mk_or(ctx, 2, nanx);
      Z3_ast parts[3];
      unsigned n = 0;
      unsigned p = e->aux & 7;
      // fp comparisons are false on NaN already
      Z3_ast o;
      if (p == 1) o = Z3_mk_fpa_eq(ctx, x, y);
      else if (p == 2) o = Z3_mk_fpa_gt(ctx, x, y);
      else if (p == 3) o = Z3_mk_fpa_geq(ctx, x, y);
      else if (p == 4) o = Z3_mk_fpa_lt(ctx, x, y);
      else if (p == 5) o = Z3_mk_fpa_leq(ctx, x, y);
      else if (p == 6) { parts[0] = Z3_mk_fpa_lt(ctx, x, y); parts[1] = Z3_mk_fpa_gt(ctx, x, y); o = Z3_mk_or(ctx, 2, parts); }
      else if (p == 7) o = Z3_mk_not(ctx, un);
      else o = Z3_mk_false(ctx);
      (void)n;
      if (e->aux & 8) { parts[0] = un; parts[1] = o; r = Z3_mk_or(ctx, 2, parts); }
      else r = o;
      break;
    }
    default: r = Z3_mk_eq(ctx, mkBVz(e), num(1, 1));
  }
  Z3_inc_ref(ctx, r);
  return e->zbool = r;
}
static Z3_ast mkBVz(Expr* e) {
  if (e->zbv) return e->zbv;
  Z3_ast r;
  bool isB = e->w == 1 && (e->op == Op::Eq || e->op == Op::Ult || e->op == Op::Ule || e->op == Op::Slt || e->op == Op::Sle || e->op == Op::FCmp ||
              e->op == Op::And || e->op == Op::Or || e->op == Op::Xor || e->op == Op::Ite);
  if (isB) {
    r = Z3_mk_ite(ctx, mkBoolz(e), num(1, 1), num(0, 1));
  } else
    switch (e->op) {
      case Op::Const: r = num(e->v, e->w); break;
      case Op::Sym: r = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)e->aux), Z3_mk_bv_sort(ctx, e->w)); break;
      case Op::Add: r = Z3_mk_bvadd(ctx, mkBVz(e->a), mkBVz(e->b)); break;
      case Op::Sub: r = Z3_mk_bvsub(ctx, mkBVz(e->a), mkBVz(e->b)); break;
      case Op::Mul: r = Z3_mk_bvmul(ctx, mkBVz(e->a), mkBVz(e->b)); break;
      case Op::UDiv: r = Z3_mk_bvudiv(ctx, mkBVz(e->a), mkBVz(e->b)); break;
      case Op::SDiv: r = Z3_mk_bvsdiv(ctx, mkBVz(e->a), mkBVz(e->b)); break;
      case Op::URem: r = Z3_mk_bvurem(ctx, mkBVz(e->a), mkBVz(e->b)); break;
      case Op::SRem: r = Z3_mk_bvsrem(ctx, mkBVz(e->a), mkBVz(e->b)); break;
      case Op::And: r = Z3_mk_bvand(ctx, mkBVz(e->a), mkBVz(e->b)); break;
      case Op::Or: r = Z3_mk_bvor(ctx, mkBVz(e->a), mkBVz(e->b)); break;
      case Op::Xor: r = Z3_mk_bvxor(ctx, mkBVz(e->a), mkBVz(e->b)); break;
      case Op::Shl: r = Z3_mk_bvshl(ctx, mkBVz(e->a), mkBVz(e->b)); break;
      case Op::LShr: r = Z3_mk_bvlshr(ctx, mkBVz(e->a), mkBVz(e->b)); break;
      case Op::AShr: r = Z3_mk_bvashr(ctx, mkBVz(e->a), mkBVz(e->b)); break;
      case Op::Ite: r = Z3_mk_ite(ctx, mkBoolz(e->a), mkBVz(e->b), mkBVz(e->c)); break;
      case Op::ZExt: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, mkBVz(e->a)); break;
      case Op::SExt: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, mkBVz(e->a)); break;
      case Op::Extract: r = Z3_mk_extract(ctx, e->aux + e->w - 1, e->aux, mkBVz(e->a)); break;
      case Op::Concat: r = Z3_mk_concat(ctx, mkBVz(e->a), mkBVz(e->b)); break;
      case Op::FToSI: {
        // match foldF1: NaN -> 0, out of range -> INT_MIN
        Z3_ast x = mkFP(e->a);
        unsigned w = e->w;
        double lim = std::ldexp(1.0, w - 1);
        Z3_ast hi = Z3_mk_fpa_numeral_double(ctx, lim, fsort(e->a->w));
        Z3_ast lo = Z3_mk_fpa_numeral_double(ctx, -lim, fsort(e->a->w));
        Z3_ast t = Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rtz(ctx), x);
        Z3_ast oor[2] = {Z3_mk_fpa_geq(ctx, t, hi), Z3_mk_fpa_lt(ctx, t, lo)};
        r = Z3_mk_ite(ctx, Z3_mk_fpa_is_nan(ctx, x), num(0, w),
              Z3_mk_ite(ctx, Z3_mk_or(ctx, 2, oor), num(u128(1) << (w - 1), w),
                        Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), x, w)));
        break;
      }
      case Op::FToUI: {
        Z3_ast x = mkFP(e->a);
        unsigned w = e->w;
        Z3_ast hi = Z3_mk_fpa_numeral_double(ctx, std::ldexp(1.0, w), fsort(e->a->w));
        Z3_ast zero = Z3_mk_fpa_zero(ctx, fsort(e->a->w), false);
        Z3_ast t = Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rtz(ctx), x);
        Z3_ast oor[3] = {Z3_mk_fpa_geq(ctx, t, hi), Z3_mk_fpa_lt(ctx, t, zero), Z3_mk_fpa_is_nan(ctx, x)};
        r = Z3_mk_ite(ctx, Z3_mk_or(ctx, 3, oor), num(0, w), Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_rtz(ctx), x, w));
        break;
      }
      case Op::FAdd: case Op::FSub: case Op::FMul: case Op::FDiv: case Op::FRem: case Op::FSqrt: case Op::FRoundA:
      case Op::FRoundE: case Op::FFloor: case Op::FCeil: case Op::FTrunc: case Op::SIToF: case Op::UIToF: case Op::FConv:
        r = Z3_mk_fpa_to_ieee_bv(ctx, mkFP(e));
        break;
      default: die("cannot lower op %d", (int)e->op);
    }
  Z3_inc_ref(ctx, r);
  return e->zbv = r;
}

static double nowS() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
static void readModel(Z3_model m, std::vector<Expr*> const& cs, Model* out) {
  std::set<u32> ids;
  for (auto c : cs)
    if (c->syms) ids.insert(c->syms->ids.begin(), c->syms->ids.end());
  for (auto s : ids) {
    Z3_ast v = nullptr;
    if (!Z3_model_eval(ctx, m, mkBVz(g_syms[s].e), true, &v)) die("model eval failed");
    uint64_t x = 0;
    if (!Z3_get_numeral_uint64(ctx, v, &x)) x = 0;
    out->set(s, x);
  }
}
static void newSolver() {
  if (slv) Z3_solver_dec_ref(ctx, slv);
  slv = Z3_mk_solver(ctx);
  Z3_solver_inc_ref(ctx, slv);
  Z3_params p = Z3_mk_params(ctx);
  Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), tmo);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "random_seed"), 1);
  Z3_solver_set_params(ctx, slv, p);
  Z3_params_dec_ref(ctx, p);
  guardLit.clear();
}

double g_solverDeadline = 0;  // absolute time after which queries are cut short
static unsigned limited(unsigned ms) {
  if (g_solverDeadline <= 0) return ms;
  double left = (g_solverDeadline - nowS()) * 1000 + 1000;
  return left < 1000 ? 1000 : left < ms ? (unsigned)left : ms;
}
// Second opinion: an external cvc5 process on the SMT-LIB2 dump (portfolio for
// the queries Z3 gives up on).  Only sat/unsat is used; a sat answer is
// followed by a value query.
static Sat cvc5Check(std::vector<Expr*> const& cs, Model* out) {
  std::set<u32> ids;
  std::vector<Z3_ast> as;
  for (auto c : cs) {
    as.push_back(mkBoolz(c));
    if (c->syms) ids.insert(c->syms->ids.begin(), c->syms->ids.end());
  }
  Z3_solver s = Z3_mk_simple_solver(ctx);
  Z3_solver_inc_ref(ctx, s);
  for (auto a : as) Z3_solver_assert(ctx, s, a);
  std::string q = Z3_solver_to_string(ctx, s);
  Z3_solver_dec_ref(ctx, s);
  char path[] = "/tmp/symx_cvc5_XXXXXX";
  int fd = mkstemp(path);
  if (fd < 0) return Sat::Unknown;
  q = "(set-option :produce-models true)\n(set-logic QF_BVFP)\n" + q + "\n(check-sat)\n";
  std::string vals;
  for (auto i : ids) vals += " k!" + std::to_string(i);
  q += "(get-value (" + vals + "))\n";
  if (write(fd, q.data(), q.size()) < 0) {}
  close(fd);
  std::string cmd = "timeout " + std::to_string(limited(hardTmo) / 1000 + 1) + " cvc5 --fp-exp " + path + " 2>/dev/null";
  FILE* f = popen(cmd.c_str(), "r");
  std::string o;
  char b[4096];
  size_t n;
  while (f && (n = fread(b, 1, sizeof b, f)) > 0) o.append(b, n);
  if (f) pclose(f);
  unlink(path);
  if (o.rfind("unsat", 0) == 0) return Sat::Unsat;
  if (o.rfind("sat", 0) != 0) return Sat::Unknown;
  for (auto i : ids) {
    std::string k = "(k!" + std::to_string(i) + " #b";
    auto p = o.find(k);
    if (p == std::string::npos) return Sat::Unknown;
    p += k.size();
    u64 v = 0;
    while (p < o.size() && (o[p] == '0' || o[p] == '1')) v = v * 2 + (o[p++] - '0');
    out->set(i, v);
  }
  return Sat::Sat;
}

static bool hasFP(Expr* e) {
  static std::unordered_map<Expr*, bool> memo;
  if (!e || !e->syms) return false;
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  bool r = (e->op >= Op::FAdd && e->op <= Op::FConv) || hasFP(e->a) || hasFP(e->b) || hasFP(e->c);
  memo[e] = r;
  return r;
}
#include "fpabs.inc"
static Sat solverCheckImpl(std::vector<Expr*> const& cs0, Model* out, bool fp) {
  std::vector<Expr*> cs;
  for (auto c : cs0) {
    if (c->isConst()) {
      if (!c->v) return Sat::Unsat;
      continue;
    }
    cs.push_back(c);
  }
  if (cs.empty()) return Sat::Sat;
  ++g_sstats.queries;
  double t0 = nowS();
  if (!slv || guardLit.size() > 400) newSolver();
  std::vector<Z3_ast> as;
  // fp: straight to the bit-blasting tactic
  if (!fp) for (auto c : cs) {
    auto it = guardLit.find(c);
    if (it == guardLit.end()) {
      Z3_ast lit = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("g" + std::to_string(c->id)).c_str()), Z3_mk_bool_sort(ctx));
      Z3_solver_assert(ctx, slv, Z3_mk_implies(ctx, lit, mkBoolz(c)));
      Z3_inc_ref(ctx, lit);
      it = guardLit.emplace(c, lit).first;
    }
    as.push_back(it->second);
  }
  Z3_lbool r = fp ? Z3_L_UNDEF : Z3_solver_check_assumptions(ctx, slv, as.size(), as.data());
  Sat res;
  if (r == Z3_L_TRUE) {
    res = Sat::Sat;
    if (out) {
      Z3_model m = Z3_solver_get_model(ctx, slv);
      Z3_model_inc_ref(ctx, m);
      readModel(m, cs, out);
      Z3_model_dec_ref(ctx, m);
    }
  } else if (r == Z3_L_FALSE) {
    res = Sat::Unsat;
  } else {
    ++g_sstats.fallback;
    if (!fp) newSolver();
    // fresh solver through the bit-blasting tactic with a longer limit
    Z3_tactic t1 = Z3_mk_tactic(ctx, "qffpbv");
    Z3_tactic_inc_ref(ctx, t1);
    Z3_solver s2 = Z3_mk_solver_from_tactic(ctx, t1);
    Z3_solver_inc_ref(ctx, s2);
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), limited(hardTmo));
    Z3_solver_set_params(ctx, s2, p);
    for (auto c : cs) Z3_solver_assert(ctx, s2, mkBoolz(c));
    Z3_lbool r2 = Z3_solver_check(ctx, s2);
    if (r2 == Z3_L_TRUE) {
      res = Sat::Sat;
      if (out) {
        Z3_model m = Z3_solver_get_model(ctx, s2);
        Z3_model_inc_ref(ctx, m);
        readModel(m, cs, out);
        Z3_model_dec_ref(ctx, m);
      }
    } else if (r2 == Z3_L_FALSE) res = Sat::Unsat;
    else {
      Model tmp;
      res = cvc5Check(cs, out ? out : &tmp);
    }
    Z3_params_dec_ref(ctx, p);
    Z3_solver_dec_ref(ctx, s2);
    Z3_tactic_dec_ref(ctx, t1);
  }
  double dt = nowS() - t0;
  g_sstats.time += dt;
  if (dt > g_sstats.maxTime) g_sstats.maxTime = dt;
  if (res == Sat::Sat) ++g_sstats.sat;
  else if (res == Sat::Unsat) ++g_sstats.unsat;
  else ++g_sstats.unknown;
  if (getenv("SYMX_SLOW") && dt > atof(getenv("SYMX_SLOW"))) {
    fprintf(stderr, "slow query %.2fs res=%d n=%zu\n", dt, (int)res, cs.size());
    for (auto c : cs) fprintf(stderr, "   %s\n", exprStr(c, 12).c_str());
  }
  if (res == Sat::Sat && out) {
    Model chk;
    chk.vals = out->vals;
    for (auto c : cs)
      if (!evalExpr(c, chk)) die("solver model does not satisfy constraint (encoding mismatch): %s", exprStr(c, 6).c_str());
  }
  return res;
}

static Sat solverCheckPlain(std::vector<Expr*> const& cs, Model* out) { return solverCheckImpl(cs, out, true); }
Sat solverCheck(std::vector<Expr*> const& cs, Model* out) {
  bool fp = false;
  for (auto c : cs) fp |= !c->isConst() && hasFP(c);
  if (!fp) return solverCheckImpl(cs, out, false);
  std::vector<Expr*> nc;
  for (auto c : cs) {
    if (!c->isConst()) nc.push_back(c);
    else if (!c->v) return Sat::Unsat;
  }
  double t0 = nowS();
  Sat r = fpStages(nc, out);
  g_sstats.time += 0 * t0;
  if (r != Sat::Unknown) return r;
  return solverCheckImpl(nc, out, true);
}
