// Scheduling of symbolic threads, happens-before race detection, state
// deduplication.  Included by exec.cc.

static constexpr u64 VIS_BITS = 24;
static u64* g_visited = nullptr;
static void initVisited() {
  if (!g_opt.threads) return;
  g_visited = (u64*)mmap(nullptr, sizeof(u64) << VIS_BITS, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (g_visited == MAP_FAILED) die("mmap");
}
// true when h was seen before
static bool visit(u64 h) {
  if (!h) h = 1;
  u64 mask = (u64(1) << VIS_BITS) - 1;
  for (u64 i = h & mask, n = 0; n < 4096; i = (i + 1) & mask, ++n) {
    u64 v = __atomic_load_n(&g_visited[i], __ATOMIC_RELAXED);
    if (v == h) return true;
    if (v == 0) {
      u64 z = 0;
      if (__atomic_compare_exchange_n(&g_visited[i], &z, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {
        __sync_fetch_and_add(&g_sh->visitedCount, 1);
        return false;
      }
      if (z == h) return true;
    }
  }
  return false;  // table full: explore again
}
static inline u64 mix(u64 h, u64 x) {
  h ^= x + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdULL;
  h ^= h >> 32;
  return h;
}

// ---- happens-before -----------------------------------------------------
void Engine::acquire(State& s, u64 obj) {
  if (!g_opt.races || s.th.size() < 2) return;
  auto it = s.sync.find(obj);
  if (it == s.sync.end()) return;
  auto& v = s.th[s.cur].vc;
  for (unsigned i = 0; i < MAXT; ++i) v[i] = std::max(v[i], it->second.v[i]);
}
void Engine::release(State& s, u64 obj, bool keep) {
  if (!g_opt.races || s.th.size() < 2) return;
  auto& y = s.sync[obj];
  auto& v = s.th[s.cur].vc;
  for (unsigned i = 0; i < MAXT; ++i) y.v[i] = keep ? std::max(y.v[i], v[i]) : v[i];
  ++v[s.cur];
}
void Engine::syncAtomic(State& s, u64 addr, AtomicOrdering o, bool rd, bool wr) {
  if (!g_opt.races || s.th.size() < 2) return;
  bool acq = o == AtomicOrdering::Acquire || o == AtomicOrdering::AcquireRelease || o == AtomicOrdering::SequentiallyConsistent;
  bool rel = o == AtomicOrdering::Release || o == AtomicOrdering::AcquireRelease || o == AtomicOrdering::SequentiallyConsistent;
  if (rd && acq) acquire(s, addr);
  if (wr && rel) release(s, addr, rd);
  else if (wr && !rd) s.sync.erase(addr);  // relaxed store ends the release sequence
}
bool Engine::access(State& s, u64 slot, u64 off, u64 n, bool write) {
  if (!g_opt.races) return true;
  Obj* o = s.mem.getW(slot);
  if (o->kind == Kind::ConstGlobal) return true;
  if (o->shadow.empty()) o->shadow.resize(o->size);
  Thread& t = s.th[s.cur];
  unsigned me = s.cur;
  for (u64 i = off; i < off + n; ++i) {
    auto& h = o->shadow[i];
    for (unsigned u = 0; u < s.th.size(); ++u) {
      if (u == me) continue;
      bool race = h.w[u] > t.vc[u] || (write && h.r[u] > t.vc[u]);
      if (!atomicOp) race = race || h.aw[u] > t.vc[u] || (write && h.ar[u] > t.vc[u]);
      if (race) {
        violation(s, "race", std::string("data race: ") + (write ? "write" : "read") + " of " + (o->name ? *o->name : std::string("memory")) + " by thread " +
                                 std::to_string(me) + " unordered with an access by thread " + std::to_string(u));
        return false;
      }
    }
    if (atomicOp) (write ? h.aw : h.ar)[me] = t.vc[me];
    else (write ? h.w : h.r)[me] = t.vc[me];
  }
  return true;
}

// ---- register liveness --------------------------------------------------
static void useDef(Inst& in, std::vector<u64>& b, bool phi) {
  if (in.dst >= 0) b[in.dst >> 6] &= ~(u64(1) << (in.dst & 63));
  if (!phi) for (auto& o : in.ops) if (o.reg >= 0) b[o.reg >> 6] |= u64(1) << (o.reg & 63);
}
static void computeLiveOut(Fn* f) {
  size_t nb = f->blocks.size(), words = (f->nregs + 63) / 64;
  f->liveOut.assign(nb, std::vector<u64>(words, 0));
  std::vector<std::vector<u64>> in(nb, std::vector<u64>(words, 0));
  auto succ = [&](size_t b) {
    std::vector<int> r;
    auto& I = f->blocks[b].insts.back();
    if (I.bb0 >= 0) r.push_back(I.bb0);
    if (I.bb1 >= 0) r.push_back(I.bb1);
    if (I.opc == Instruction::Switch) for (size_t i = 1; i < I.auxv.size(); i += 2) r.push_back((int)I.auxv[i]);
    return r;
  };
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t b = nb; b-- > 0;) {
      auto out = std::vector<u64>(words, 0);
      for (int t : succ(b)) {
        auto& tb = f->blocks[t];
        for (size_t w = 0; w < words; ++w) out[w] |= in[t][w];
        for (auto& p : tb.insts) {
          if (p.opc != Instruction::PHI) break;
          for (size_t k = 0; k < p.auxv.size(); ++k)
            if (p.auxv[k] == b && p.ops[k].reg >= 0) out[p.ops[k].reg >> 6] |= u64(1) << (p.ops[k].reg & 63);
        }
      }
      if (out != f->liveOut[b]) { f->liveOut[b] = out; ch = true; }
      auto& I = f->blocks[b].insts;
      for (size_t k = I.size(); k-- > 0;) useDef(I[k], out, I[k].opc == Instruction::PHI);
      if (out != in[b]) { in[b] = out; ch = true; }
    }
  }
}
std::vector<u32> const& Engine::liveAt(Fn* f, int bb, int ip) {
  auto& I = f->blocks[bb].insts;
  auto& at = I[ip];
  if (!at.live) {
    if (f->liveOut.empty()) computeLiveOut(f);
    auto b = f->liveOut[bb];
    for (size_t k = I.size(); k-- > (size_t)ip;) useDef(I[k], b, I[k].opc == Instruction::PHI);
    at.live = new std::vector<u32>();
    for (u32 r = 0; r < f->nregs; ++r) if ((b[r >> 6] >> (r & 63)) & 1) at.live->push_back(r);
  }
  return *at.live;
}

// ---- canonical hash of a scheduling state -----------------------------------
u64 Engine::stateHash(State& s) {
  u64 h = 0x1234;
  auto expr = [](Expr* e) -> u64 { return e ? e->sh : 7; };
  // normalised clocks: values that every live view already covers are equivalent to 0
  std::vector<u16> rank[MAXT];
  u16 lo[MAXT] = {};
  if (g_opt.races) {
    for (unsigned u = 0; u < s.th.size(); ++u) {
      auto& v = rank[u];
      u16 m = 0xffff;
      for (auto& t : s.th) {
        v.push_back(t.vc[u]);
        if (t.st != TS::Done) m = std::min(m, t.vc[u]);
      }
      for (auto& y : s.sync) v.push_back(y.second.v[u]);
      lo[u] = m;
      std::sort(v.begin(), v.end());
      v.erase(std::unique(v.begin(), v.end()), v.end());
    }
  }
  // epoch c of u: index of the first view value >= c (which views cover it)
  auto rk = [&](unsigned u, u16 c) -> u64 {
    if (c <= lo[u]) return 0;
    auto& v = rank[u];
    auto it = std::lower_bound(v.begin(), v.end(), c);
    auto base = std::lower_bound(v.begin(), v.end(), lo[u]);
    return (it - base) + 1;
  };
  auto vcHash = [&](u64 x, u16 const* v) {
    for (unsigned u = 0; u < s.th.size(); ++u) x = mix(x, rk(u, v[u]));
    return x;
  };
  for (auto& t : s.th) {
    h = mix(h, (u64)t.st * 4 + t.woken * 2 + t.joined);
    if (t.st == TS::Done) { if (g_opt.races) h = vcHash(h, t.vc); continue; }
    if (t.st != TS::Run) h = mix(h, t.waitObj);
    if (t.st == TS::WaitCv || t.woken) h = mix(h, t.waitMutex);
    h = mix(h, t.inflight);
    h = mix(h, t.nextSlot);
    for (auto c : t.caught) h = mix(h, c);
    for (auto& f : t.fr) {
      h = mix(h, f.fn->addr);
      h = mix(h, (u64)f.bb << 32 | (u32)f.ip);
      h = mix(h, f.freeOnReturn * 2 + f.discardRet);
      for (auto r : liveAt(f.fn, f.bb, f.ip)) h = mix(h, expr(f.regs[r]) + r);
      for (auto a : f.allocas) h = mix(h, a);
    }
    if (g_opt.races) h = vcHash(h, t.vc);
  }
  for (auto& ar : s.mem.arenas)
    for (auto& pg : ar) {
      if (!pg) continue;
      for (auto& r : pg->o) {
        Obj* o = r.p;
        if (!o || o->kind == Kind::Code || o->kind == Kind::ConstGlobal) continue;
        if (!o->hashed) {
          u64 x = mix(o->base, o->size * 8 + (u64)o->kind);
          x = mix(x, o->dead);
          if (!o->dead)
            for (u64 i = 0; i < o->size; ++i) {
              if (!o->sym.empty() && o->sym[i].e) x = mix(x, o->sym[i].e->op == Op::Uninit ? 3 : o->sym[i].e->sh * 8 + o->sym[i].idx + 5);
              else x = mix(x, o->bytes[i]);
            }
          o->hash = x;
          o->hashed = true;
        }
        h = mix(h, o->hash);
        if (g_opt.races && !o->shadow.empty())
          for (u64 i = 0; i < o->size; ++i) {
            auto& d = o->shadow[i];
            for (unsigned u = 0; u < s.th.size(); ++u) {
              u64 q = rk(u, d.w[u]) | rk(u, d.r[u]) << 8 | rk(u, d.aw[u]) << 16 | rk(u, d.ar[u]) << 24;
              if (q) h = mix(h, q ^ (i << 40) ^ ((u64)u << 36));
            }
          }
      }
    }
  if (g_opt.races)
    for (auto& y : s.sync) h = vcHash(mix(h, y.first), y.second.v);
  for (auto& e : s.excs) {
    h = mix(h, e.first);
    h = mix(h, (u64)e.second.refs * 64 + e.second.handlers * 2 + e.second.rethrown);
  }
  u64 p = 0;
  for (auto c : s.pc) p ^= mix(17, c->sh);
  h = mix(h, p);
  for (auto e : s.obs) h = mix(h, expr(e));
  h = mix(h, s.inputs.size());
  h = mix(h, s.spurious);
  h = mix(h, s.allocFail);
  if (g_opt.preemptBound >= 0) { h = mix(h, s.preempt); h = mix(h, s.cur); }
  return h;
}

// ---- scheduling -------------------------------------------------------------
bool Engine::enabled(State& s, int i) {
  Thread& t = s.th[i];
  switch (t.st) {
    case TS::Run: return true;
    case TS::WaitMutex: return (rd64(s, t.waitObj) & 0xffffffff) == 0;
    case TS::WaitJoin: return s.th[t.waitObj].st == TS::Done;
    case TS::WaitIdle:  // only when nobody else can go on
      for (int j = 0; j < (int)s.th.size(); ++j) if (j != i && s.th[j].st != TS::WaitIdle && enabled(s, j)) return false;
      return true;
    default: return false;
  }
}
// Called in front of a visible operation (forced = false) or when the current
// thread cannot continue (forced = true).
// not forced: 0 = go ahead with the operation, 1 = path over.
// forced: 0 = another thread was chosen, 1 = path over.
int Engine::schedule(State& s, bool forced) {
  Thread& t = s.th[s.cur];
  if (!forced && t.granted) return 0;
  std::vector<int> en;
  for (int i = 0; i < (int)s.th.size(); ++i) if (enabled(s, i)) en.push_back(i);
  if (en.empty()) {
    bool all = true;
    for (auto& x : s.th) if (x.st != TS::Done) all = false;
    if (all) die("all threads done but main did not end the path");
    std::string m = "deadlock:";
    char const* n[] = {"running", "waiting for a mutex", "waiting on a condition variable", "joining", "done", "waiting for the others"};
    for (size_t i = 0; i < s.th.size(); ++i) m += " thread " + std::to_string(i) + " " + n[(int)s.th[i].st] + ";";
    return violation(s, "deadlock", m);
  }
  ++g_st.schedPoints;
  if (g_opt.threads && visit(stateHash(s))) {
    ++g_st.deduped;
    return 1;
  }
  auto grant = [](State& n, int i) {
    n.cur = i;
    Thread& x = n.th[i];
    x.st = TS::Run;
    x.granted = true;
    n.sched.push_back(i);
  };
  // spurious wake-ups
  if (s.spurious > 0)
    for (int i = 0; i < (int)s.th.size(); ++i)
      if (s.th[i].st == TS::WaitCv && (rd64(s, s.th[i].waitMutex) & 0xffffffff) == 0) {
        auto n = new State(s);
        n->id = ++g_st.states;
        --n->spurious;
        n->sched.push_back(2000 + i);
        n->th[i].woken = true;
        n->th[i].st = TS::WaitMutex;
        n->th[i].waitObj = n->th[i].waitMutex;
        grant(*n, i);
        work.push_back(n);
      }
  int me = -1;
  if (!forced) me = s.cur;
  else me = en[0];
  for (int i : en) {
    if (i == me) continue;
    if (!forced && g_opt.preemptBound >= 0 && s.preempt >= g_opt.preemptBound) continue;
    auto n = new State(s);
    n->id = ++g_st.states;
    if (!forced) n->preempt++;
    grant(*n, i);
    work.push_back(n);
  }
  grant(s, me);
  return 0;
}
