// Floating point: before a query goes to the exact (bit-blasted) encoding, two
// cheap stages are tried.
//  1. Abstraction: every FP operation becomes an unconstrained value plus
//     instances of IEEE-754 theorems (round-to-nearest operations are monotone,
//     keep signs, zeros, units and finiteness).  If the solver refutes that, the
//     original query is unsatisfiable.
//  2. Guessing: inputs from the abstract model and mutations of them are
//     evaluated exactly on the original constraints; a hit is a genuine model.
// Anything left goes to the exact encoding.
struct FpApp { Op op; Expr *r, *a, *b, *orig; };
struct FpAbs {
  std::vector<FpApp> apps;
  std::unordered_map<Expr*, Expr*> memo;
  Expr* go(Expr* e) {
    if (!hasFP(e)) return e;
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    Expr* r;
    switch (e->op) {
      case Op::Ite: r = mkIte(go(e->a), go(e->b), go(e->c)); break;
      case Op::ZExt: r = mkZExt(go(e->a), e->w); break;
      case Op::SExt: r = mkSExt(go(e->a), e->w); break;
      case Op::Extract: r = mkExtract(go(e->a), e->aux, e->w); break;
      case Op::Concat: r = mkConcat(go(e->a), go(e->b)); break;
      case Op::FCmp: r = mkFCmp(e->aux, go(e->a), go(e->b)); break;
      case Op::FToSI: case Op::FToUI: r = mkF1(e->op, go(e->a), e->w); break;
      case Op::FAdd: case Op::FSub: case Op::FMul: case Op::FDiv: case Op::FRem: {
        auto x = go(e->a), y = go(e->b);
        r = mkSym("fp@" + std::to_string(e->id), e->w, false);
        if (e->op == Op::FSub) apps.push_back({Op::FAdd, r, x, mkBin(Op::Xor, y, mkConst(u128(1) << (e->w - 1), e->w)), e});
        else apps.push_back({e->op, r, x, y, e});
        break;
      }
      case Op::FSqrt: case Op::FRoundA: case Op::FRoundE: case Op::FFloor: case Op::FCeil: case Op::FTrunc:
      case Op::SIToF: case Op::UIToF: case Op::FConv: {
        auto x = go(e->a);
        r = mkSym("fp@" + std::to_string(e->id), e->w, false);
        apps.push_back({e->op, r, x, nullptr, e});
        break;
      }
      default: r = e->b ? mkBin(e->op, go(e->a), go(e->b)) : e;
    }
    memo[e] = r;
    return r;
  }
};
static Expr* fcst(double d, unsigned w) {
  u64 v;
  if (w == 64) memcpy(&v, &d, 8);
  else { float f = (float)d; u32 x; memcpy(&x, &f, 4); v = x; }
  return mkConst(v, w);
}
static Expr* imp(Expr* a, Expr* b) { return mkOr(mkNot(a), b); }
// the theorems, as constraints over the abstracted values
static void fpAxioms(FpAbs& A, std::vector<Expr*>& out, std::vector<u64> const& ints, std::vector<std::pair<u64, unsigned>> const& consts) {
  auto le = [](Expr* x, Expr* y) { return mkFCmp(5, x, y); };
  auto lt = [](Expr* x, Expr* y) { return mkFCmp(4, x, y); };
  auto eq = [](Expr* x, Expr* y) { return mkFCmp(1, x, y); };
  auto nan = [](Expr* x) { return mkFCmp(8, x, x); };
  auto num = [](Expr* x) { return mkFCmp(7, x, x); };
  auto C = [](double d, Expr* like) { return fcst(d, like->w); };
  auto maxv = [](unsigned w) { return w == 64 ? 1.7976931348623157e308 : 3.4028234663852886e38; };
  auto within = [&](Expr* x, double m) { return mkAnd(le(C(-m, x), x), le(x, C(m, x))); };
  auto fin = [&](Expr* x) { return within(x, maxv(x->w)); };
  auto ge0 = [&](Expr* x) { return le(C(0, x), x); };
  auto le0 = [&](Expr* x) { return le(x, C(0, x)); };
  auto add = [&](Expr* x) { if (!x->isConst()) out.push_back(x); else if (!x->v) die("floating point theorem is contradictory"); };
  // comparison points: constants carried through operations with one unknown operand
  std::unordered_map<Expr*, std::vector<u128>> pts;
  std::function<std::vector<u128>(Expr*)> points = [&](Expr* x) -> std::vector<u128> {
    auto it = pts.find(x);
    if (it != pts.end()) return it->second;
    std::vector<u128> r;
    if (x->isConst()) r = {x->v};
    else if (x->op == Op::Ite) { r = points(x->b); for (auto v : points(x->c)) r.push_back(v); }
    else for (auto const& k : consts) if (k.second == x->w) r.push_back(k.first);
    r.push_back(C(0, x)->v);
    r.push_back(C(1, x)->v);
    std::sort(r.begin(), r.end());
    r.erase(std::unique(r.begin(), r.end()), r.end());
    if (r.size() > 12) r.resize(12);
    return pts[x] = r;
  };
  for (auto const& p : A.apps) {
    Expr *R = p.r, *a = p.a, *b = p.b;
    // R is monotone in its only unknown operand x: compare with op(k) for points k of x
    Expr* x = !b ? a : b->isConst() ? a : a->isConst() ? b : nullptr;
    bool known = p.op == Op::FAdd || p.op == Op::FMul || (p.op == Op::FDiv && x == a) || p.op == Op::FSqrt || p.op == Op::FRoundA ||
                 p.op == Op::FRoundE || p.op == Op::FFloor || p.op == Op::FCeil || p.op == Op::FTrunc || p.op == Op::FConv;
    if (x && !x->isConst() && known && (p.op != Op::FSqrt)) {
      std::vector<u128> mine;
      for (auto k : points(x)) {
        Expr* kc = mkConst(k, x->w);
        Expr* f = b ? (x == a ? mkF2(p.op, kc, b) : mkF2(p.op, a, kc)) : mkF1(p.op, kc, R->w);
        if (!f->isConst() || !mkFCmp(7, f, f)->v || !mkFCmp(7, kc, kc)->v) continue;
        bool dec = false;
        if (p.op == Op::FMul || p.op == Op::FDiv) {
          Expr* o = x == a ? b : a;
          if (!mkFCmp(7, o, o)->v) continue;
          dec = mkFCmp(4, o, C(0, o))->v != 0;
          if (p.op == Op::FDiv && mkFCmp(1, o, C(0, o))->v) continue;
        }
        add(imp(mkAnd(num(R), le(x, kc)), dec ? le(f, R) : le(R, f)));
        add(imp(mkAnd(num(R), le(kc, x)), dec ? le(R, f) : le(f, R)));
        mine.push_back(f->v);
      }
      auto& v = pts[R];
      v = mine;
      v.push_back(C(0, R)->v);
      std::sort(v.begin(), v.end());
      v.erase(std::unique(v.begin(), v.end()), v.end());
      if (v.size() > 12) v.resize(12);
    } else if (p.op == Op::UIToF || p.op == Op::SIToF) {
      auto& v = pts[R];
      for (u64 c : ints) { auto f = mkF1(p.op, mkConst(c & maskw(std::min<unsigned>(a->w, 64)), a->w), R->w); if (f->isConst()) v.push_back(f->v); }
      v.push_back(C(0, R)->v);
      v.push_back(C(1, R)->v);
    } else {
      pts[R] = {C(0, R)->v, C(1, R)->v};
    }
    switch (p.op) {
      case Op::FAdd:
        add(imp(mkOr(nan(a), nan(b)), nan(R)));
        add(imp(mkAnd(mkAnd(num(a), num(b)), mkOr(fin(a), fin(b))), num(R)));
        for (int k = 0; k < 2; ++k) {
          add(imp(mkAnd(ge0(b), mkAnd(num(a), num(R))), le(a, R)));
          add(imp(mkAnd(le0(b), mkAnd(num(a), num(R))), le(R, a)));
          std::swap(a, b);
        }
        {
          auto nb = mkBin(Op::Xor, b, mkConst(u128(1) << (b->w - 1), b->w));
          add(imp(mkAnd(le(nb, a), num(R)), ge0(R)));
          add(imp(mkAnd(le(a, nb), num(R)), le0(R)));
          add(imp(mkAnd(num(R), eq(R, C(0, R))), eq(a, nb)));
        }
        for (double m : {1024.0, 16777216.0, 0x1p100}) add(imp(mkAnd(within(a, m), within(b, m)), within(R, 2 * m)));
        break;
      case Op::FMul: {
        auto zero = [&](Expr* x) { return eq(x, C(0, x)); };
        add(imp(mkOr(nan(a), nan(b)), nan(R)));
        add(imp(mkAnd(mkAnd(num(a), num(b)), mkAnd(mkOr(fin(a), mkNot(zero(b))), mkOr(fin(b), mkNot(zero(a))))), num(R)));
        add(imp(mkAnd(mkOr(mkAnd(ge0(a), ge0(b)), mkAnd(le0(a), le0(b))), num(R)), ge0(R)));
        add(imp(mkAnd(mkOr(mkAnd(ge0(a), le0(b)), mkAnd(le0(a), ge0(b))), num(R)), le0(R)));
        for (int k = 0; k < 2; ++k) {
          add(imp(mkAnd(zero(a), fin(b)), zero(R)));
          add(imp(mkAnd(mkAnd(ge0(a), mkAnd(ge0(b), le(b, C(1, b)))), num(R)), le(R, a)));
          add(imp(mkAnd(mkAnd(ge0(a), le(C(1, b), b)), num(R)), le(a, R)));
          std::swap(a, b);
        }
        add(imp(mkAnd(within(a, 0x1p50), within(b, 0x1p50)), within(R, 0x1p100)));
        break;
      }
      case Op::FDiv: {
        auto zero = [&](Expr* x) { return eq(x, C(0, x)); };
        add(imp(mkOr(nan(a), nan(b)), nan(R)));
        add(imp(mkAnd(mkAnd(num(a), num(b)), mkAnd(mkOr(fin(a), fin(b)), mkNot(mkAnd(zero(a), zero(b))))), num(R)));
        auto pos = lt(C(0, b), b);
        add(imp(mkAnd(mkAnd(ge0(a), pos), num(R)), ge0(R)));
        add(imp(mkAnd(mkAnd(le0(a), pos), num(R)), le0(R)));
        add(imp(mkAnd(zero(a), mkAnd(num(b), mkNot(zero(b)))), zero(R)));
        add(imp(mkAnd(mkAnd(ge0(a), mkAnd(le(a, b), pos)), num(R)), le(R, C(1, R))));
        add(imp(mkAnd(mkAnd(le(b, a), pos), num(R)), le(C(1, R), R)));
        add(imp(mkAnd(mkAnd(ge0(a), le(C(1, b), b)), num(R)), le(R, a)));
        add(imp(mkAnd(mkAnd(ge0(a), mkAnd(pos, le(b, C(1, b)))), num(R)), le(a, R)));
        break;
      }
      case Op::FRoundA: case Op::FRoundE: case Op::FFloor: case Op::FCeil: case Op::FTrunc:
        add(mkEq(nan(R), nan(a)));
        add(mkEq(fin(R), fin(a)));
        add(imp(ge0(a), ge0(R)));
        add(imp(le0(a), le0(R)));
        if (p.op == Op::FFloor) add(imp(num(a), le(R, a)));
        if (p.op == Op::FCeil) add(imp(num(a), le(a, R)));
        if (p.op == Op::FTrunc) { add(imp(ge0(a), le(R, a))); add(imp(le0(a), le(a, R))); }
        for (double c : {1.0, 100.0, 255.0}) { add(imp(le(a, C(c, a)), le(R, C(c, R)))); add(imp(le(C(c, a), a), le(C(c, R), R))); }
        break;
      case Op::FConv:
        add(mkEq(nan(R), nan(a)));
        add(imp(ge0(a), ge0(R)));
        add(imp(le0(a), le0(R)));
        add(imp(within(a, 0x1p100), within(R, 0x1p100)));
        for (double c : {1.0, 100.0}) { add(imp(le(a, C(c, a)), le(R, C(c, R)))); add(imp(le(C(c, a), a), le(C(c, R), R))); }
        break;
      case Op::SIToF: case Op::UIToF: {
        bool u = p.op == Op::UIToF;
        auto ile = [&](Expr* x, Expr* y) { return mkBin(u ? Op::Ule : Op::Sle, x, y); };
        add(num(R));
        add(within(R, 0x1p64));
        std::vector<u64> cs = ints;
        cs.push_back(0);
        cs.push_back(1);
        for (u64 c : cs) {
          auto ic = mkConst(c & maskw(std::min<unsigned>(a->w, 64)), a->w);
          auto fc = mkF1(p.op, ic, R->w);
          if (a->w > 64) continue;
          add(imp(ile(a, ic), le(R, fc)));
          add(imp(ile(ic, a), le(fc, R)));
        }
        break;
      }
      default: break;  // no theorems: any value
    }
  }
  // pairs
  for (size_t i = 0; i < A.apps.size(); ++i)
    for (size_t j = 0; j < A.apps.size(); ++j) {
      auto const &p = A.apps[i], &q = A.apps[j];
      if (i == j || p.op != q.op || p.r->w != q.r->w || p.a->w != q.a->w || p.r == q.r) continue;
      auto ok = mkAnd(num(p.r), num(q.r));
      auto up = le(p.r, q.r);
      switch (p.op) {
        case Op::FAdd:
          add(imp(mkAnd(ok, mkAnd(le(p.a, q.a), le(p.b, q.b))), up));
          add(imp(mkAnd(ok, mkAnd(le(p.a, q.b), le(p.b, q.a))), up));
          break;
        case Op::FMul:
          for (int k = 0; k < 2; ++k) {
            auto x = k ? q.b : q.a, y = k ? q.a : q.b;
            add(imp(mkAnd(mkAnd(ok, mkAnd(ge0(p.a), ge0(p.b))), mkAnd(le(p.a, x), le(p.b, y))), up));
          }
          if (p.b == q.b) add(imp(mkAnd(mkAnd(ok, ge0(p.b)), le(p.a, q.a)), up));
          if (p.a == q.a) add(imp(mkAnd(mkAnd(ok, ge0(p.a)), le(p.b, q.b)), up));
          break;
        case Op::FDiv:
          add(imp(mkAnd(mkAnd(ok, mkAnd(ge0(p.a), lt(C(0, q.b), q.b))), mkAnd(le(p.a, q.a), le(q.b, p.b))), up));
          if (p.b == q.b) add(imp(mkAnd(mkAnd(ok, lt(C(0, p.b), p.b)), le(p.a, q.a)), up));
          break;
        case Op::FSqrt: case Op::FRoundA: case Op::FRoundE: case Op::FFloor: case Op::FCeil: case Op::FTrunc: case Op::FConv:
          add(imp(mkAnd(ok, le(p.a, q.a)), up));
          break;
        case Op::UIToF: add(imp(mkBin(Op::Ule, p.a, q.a), up)); break;
        case Op::SIToF: add(imp(mkBin(Op::Sle, p.a, q.a), up)); break;
        default: break;
      }
    }
}
static void harvest(Expr* e, std::unordered_map<Expr*, bool>& seen, std::vector<u64>& ints, std::vector<std::pair<u64, unsigned>>& consts) {
  if (!e || seen[e]) return;
  seen[e] = true;
  if (e->isConst()) {
    if (e->w > 64 || e->w < 8) return;
    consts.push_back({(u64)e->v, e->w});
    double d = e->w == 64 ? asD(e->v) : e->w == 32 ? asF(e->v) : -1.0;
    if (d >= 1 && d <= 4294967296.0 && d == std::floor(d)) ints.push_back((u64)d);
    if (e->v < 65536) ints.push_back((u64)e->v);
    return;
  }
  harvest(e->a, seen, ints, consts);
  harvest(e->b, seen, ints, consts);
  harvest(e->c, seen, ints, consts);
}
static u64 g_fpAbsUnsat = 0, g_fpGuessed = 0, g_fpExact = 0;
static Sat solverCheckPlain(std::vector<Expr*> const& cs, Model* out);
static Sat fpStages(std::vector<Expr*> const& cs, Model* out) {
  std::vector<u64> ints;
  std::vector<std::pair<u64, unsigned>> consts;
  std::unordered_map<Expr*, bool> seen;
  for (auto c : cs) harvest(c, seen, ints, consts);
  std::sort(ints.begin(), ints.end());
  ints.erase(std::unique(ints.begin(), ints.end()), ints.end());
  if (ints.size() > 16) ints.resize(16);
  FpAbs A;
  std::vector<Expr*> q;
  for (auto c : cs) {
    auto x = A.go(c);
    if (x->isConst()) {
      if (!x->v) return Sat::Unsat;
      continue;
    }
    q.push_back(x);
  }
  Model am;
  if (A.apps.size() <= 64) {
    fpAxioms(A, q, ints, consts);
    am.vals = out ? out->vals : std::vector<u64>();
    Sat r = solverCheckPlain(q, &am);
    if (r == Sat::Unsat) { ++g_fpAbsUnsat; return Sat::Unsat; }
    if (r == Sat::Unknown && out) am.vals = out->vals;
  }
  if (!out) return Sat::Unknown;
  // guesses
  std::set<u32> ids;
  for (auto c : cs) if (c->syms) ids.insert(c->syms->ids.begin(), c->syms->ids.end());
  std::vector<u32> id(ids.begin(), ids.end());
  static u64 rng = 88172645463325252ULL;
  auto rnd = [&] { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; };
  auto cost = [&](Model& m) { int n = 0; m.epoch = newEpoch(); for (auto c : cs) n += evalExpr(c, m) ? 0 : 1; return n; };
  Model best;
  int bc = 1 << 30;
  for (auto const& start : {am.vals, out->vals}) {
    Model m;
    m.vals = start;
    int c = cost(m);
    if (c < bc) { bc = c; best.vals = m.vals; }
  }
  Model first;
  first.vals = best.vals;
  int fc = bc;
  for (unsigned it = 0; it < 60000 && bc; ++it) {
    if (it % 1500 == 1499) { best.vals = it % 3000 == 1499 ? am.vals : first.vals; bc = cost(best); }
    Model m;
    m.vals = best.vals;
    unsigned k = 1 + rnd() % 2;
    for (unsigned t = 0; t < k; ++t) {
      u32 s = id[rnd() % id.size()];
      unsigned w = g_syms[s].w;
      u64 v = m.get(s);
      switch (rnd() % 10) {
        case 0: v = 0; break;
        case 1: v = rnd(); break;
        case 2: v += 1; break;
        case 3: v -= 1; break;
        case 4: v ^= 1ULL << (rnd() % w); break;
        case 5: { u32 o = id[rnd() % id.size()]; v = m.get(o); break; }
        case 6:
          if (!consts.empty()) v = consts[rnd() % consts.size()].first;
          break;
        case 7: case 8: {  // a float: a small fraction, or near the present value
          double d;
          if (rnd() & 1) d = ((int)(rnd() % 4096) - 1024) / (double)(1u << (rnd() % 12));
          else { d = w == 64 ? asD(v) : w == 32 ? asF(v) : 0; d *= 1 + ((int)(rnd() % 2001) - 1000) / 1000.0; }
          if (w == 32) { float f = (float)d; u32 x; memcpy(&x, &f, 4); v = x; }
          else if (w == 64) memcpy(&v, &d, 8);
          break;
        }
        default: {  // a "nice" number of the right kind
          static double const nice[] = {0, 1, 2, 3, 5, 7, 10, 50, 100, 255, 1000, 0.5, 0.1, -1, -10, -100, 1e10, 1e-3};
          double d = nice[rnd() % 18];
          if (w == 32 && (rnd() & 1)) { float f = (float)d; u32 x; memcpy(&x, &f, 4); v = x; }
          else if (w == 64 && (rnd() & 1)) memcpy(&v, &d, 8);
          else v = (u64)(i64)d;
        }
      }
      m.set(s, (u64)(v & maskw(w)));
    }
    int c = cost(m);
    if (c <= bc) { bc = c; best.vals = m.vals; }
  }
  (void)fc;
  if (bc == 0) {
    for (auto s : id) out->set(s, best.get(s));
    ++g_fpGuessed;
    return Sat::Sat;
  }
  ++g_fpExact;
  return Sat::Unknown;
}
// the theorems on random operands (symx --selftest)
int fpSelfTest() {
  u64 rng = 1234567;
  auto rnd = [&] { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; };
  static Op const ops[] = {Op::FAdd, Op::FMul, Op::FDiv, Op::FRoundA, Op::FRoundE, Op::FFloor, Op::FCeil, Op::FTrunc, Op::FConv, Op::SIToF, Op::UIToF};
  int bad = 0;
  u64 checks = 0;
  for (Op op : ops) for (unsigned w : {32u, 64u}) for (int form = 0; form < 3; ++form) {
    bool two = op == Op::FAdd || op == Op::FMul || op == Op::FDiv;
    if (!two && form) continue;
    bool conv = op == Op::FConv, ii = op == Op::SIToF || op == Op::UIToF;
    unsigned aw = conv ? 96 - w : w;
    std::string t = "st" + std::to_string((int)op) + "_" + std::to_string(w) + "_" + std::to_string(form);
    static double const sp[] = {0, -0.0, 1, -1, 0.5, 2, 100, 255, 1e-40, 1e-310, 3e38, 1e308, -3e38, -1e308, 16777216, 16777217, 0.1, 1e15};
    auto val = [&](unsigned vw) -> u64 {
      u64 k = rnd() % 10, v;
      double d;
      if (k == 0) return rnd() & (u64)maskw(vw);
      if (k == 1) d = (rnd() & 1 ? 1 : -1) * std::numeric_limits<double>::infinity();
      else if (k == 2 && rnd() % 4 == 0) d = std::nan("");
      else if (k < 6) d = sp[rnd() % 18];
      else d = ((int)(rnd() % 4096) - 2048) / (double)(1 << (rnd() % 12));
      if (vw == 64) memcpy(&v, &d, 8);
      else { float f = (float)d; u32 x; memcpy(&x, &f, 4); v = x; }
      return v;
    };
    for (int rep = 0; rep < 40; ++rep) {
      FpAbs A;
      Expr* shared = form == 1 ? mkSym(t + "b", w, false) : form == 2 ? mkConst(val(w), w) : nullptr;
      for (int k = 0; k < 2; ++k) {
        auto n = t + std::to_string(k);
        Expr* b = !two ? nullptr : shared ? shared : mkSym(n + "b", w, false);
        A.apps.push_back({op, mkSym(n + "r", w, false), mkSym(n + "a", aw, false), b, nullptr});
      }
      std::vector<Expr*> ax;
      fpAxioms(A, ax, {0, 1, 7, 100, 65535}, {{val(w), w}, {val(w), w}, {val(aw), aw}});
      for (int i = 0; i < 400; ++i) {
        Model m;
        for (auto& p : A.apps) {
          u64 x = ii ? (rnd() & 1 ? rnd() % 200 : rnd() & (u64)maskw(aw)) : val(aw);
          m.set(p.a->aux, x);
          if (p.b && p.b->op == Op::Sym && !(form == 1 && &p != &A.apps[0])) m.set(p.b->aux, val(w));
        }
        if (rnd() % 4 == 0) m.set(A.apps[1].a->aux, m.get(A.apps[0].a->aux));
        for (auto& p : A.apps) {
          u64 x = m.get(p.a->aux), y = !p.b ? 0 : p.b->isConst() ? (u64)p.b->v : m.get(p.b->aux);
          m.set(p.r->aux, (u64)(p.b ? foldF2(op, x, y, w) : foldF1(op, x, aw, w)));
        }
        m.epoch = newEpoch();
        for (auto e : ax) {
          ++checks;
          if (!evalExpr(e, m)) {
            if (bad++ < 5) fprintf(stderr, "theorem fails (op %d, %u bits): %s\n", (int)op, w, exprStr(e, 12).c_str());
          }
        }
      }
    }
  }
  printf("floating point theorems: %llu evaluations, %d wrong\n", (unsigned long long)checks, bad);
  return bad != 0;
}
