#include "exec.h"
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <algorithm>
#include <sys/mman.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <time.h>
#include <unistd.h>

using namespace llvm;

Shared* g_sh;
Options g_opt;
Stats g_st;
Engine E;
static double lastSpawn = 0;
static bool isChild = false;

double nowSec() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

static void appendOut(std::string const& s) {
  int fd = open(g_opt.out.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
  if (fd < 0) { perror("open out"); _exit(3); }
  size_t o = 0;
  while (o < s.size()) {
    ssize_t n = write(fd, s.data() + o, s.size() - o);
    if (n <= 0) break;
    o += n;
  }
  close(fd);
}
static std::string jstr(std::string const& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
void dieHook(const char* m) {
  std::string loc = E.cur ? E.where(*E.cur) : "";
  appendOut("{\"type\":\"error\",\"msg\":" + jstr(m) + ",\"loc\":" + jstr(loc) + "}\n");
  if (g_sh) g_sh->stop = 1;
}

// ------------------------------------------------------------------ decode
unsigned Engine::widthOf(Type* t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  return 0;
}
Expr* Engine::zeroOf(Type* t) {
  if (unsigned w = widthOf(t)) return mkConst(0, w);
  std::vector<Expr*> el;
  if (auto st = dyn_cast<StructType>(t)) for (auto e : st->elements()) el.push_back(zeroOf(e));
  else if (auto at = dyn_cast<ArrayType>(t)) for (u64 i = 0; i < at->getNumElements(); ++i) el.push_back(zeroOf(at->getElementType()));
  else if (auto vt = dyn_cast<FixedVectorType>(t)) for (unsigned i = 0; i < vt->getNumElements(); ++i) el.push_back(zeroOf(vt->getElementType()));
  else return nullptr;
  return mkTuple(el);
}
Fn* Engine::fnOf(Function const* F) {
  auto& f = fns[F];
  if (!f) {
    f = new Fn();
    f->F = const_cast<Function*>(F);
    f->name = F->getName().str();
  }
  return f;
}
Expr* Engine::constant(Constant const* c) {
  if (auto ci = dyn_cast<ConstantInt>(c)) {
    auto const& v = ci->getValue();
    if (v.getBitWidth() > 128) return nullptr;
    u128 x = v.getRawData()[0];
    if (v.getBitWidth() > 64) x |= u128(v.getRawData()[1]) << 64;
    return mkConst(x, v.getBitWidth());
  }
  if (auto cf = dyn_cast<ConstantFP>(c)) {
    if (c->getType()->isFloatTy() || c->getType()->isDoubleTy())
      return mkConst(cf->getValueAPF().bitcastToAPInt().getZExtValue(), widthOf(c->getType()));
    return nullptr;
  }
  if (isa<ConstantPointerNull>(c)) return mkConst(0, 64);
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return zeroOf(c->getType());
  if (auto gv = dyn_cast<GlobalVariable>(c)) return mkConst(gaddr.at(gv), 64);
  if (auto f = dyn_cast<Function>(c)) return mkConst(fnOf(f)->addr, 64);
  if (auto ga = dyn_cast<GlobalAlias>(c)) return constant(ga->getAliasee());
  if (auto ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0);
        auto g = cast<GEPOperator>(ce);
        if (!g->accumulateConstantOffset(*DL, off)) return nullptr;
        auto b = constant(ce->getOperand(0));
        return b ? mkConst(b->v + (u64)off.getSExtValue(), 64) : nullptr;
      }
      case Instruction::BitCast: case Instruction::AddrSpaceCast: return constant(ce->getOperand(0));
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: {
        auto b = constant(ce->getOperand(0));
        return b ? mkZExt(b, widthOf(ce->getType())) : nullptr;
      }
      case Instruction::Add: case Instruction::Sub: {
        auto a = constant(ce->getOperand(0)), b = constant(ce->getOperand(1));
        return a && b ? mkBin(ce->getOpcode() == Instruction::Add ? Op::Add : Op::Sub, a, b) : nullptr;
      }
      default: return nullptr;
    }
  }
  if (auto ca = dyn_cast<ConstantAggregate>(c)) {
    std::vector<Expr*> el;
    for (auto& o : ca->operands()) el.push_back(constant(cast<Constant>(o.get())));
    return mkTuple(el);
  }
  if (auto cd = dyn_cast<ConstantDataSequential>(c)) {
    std::vector<Expr*> el;
    for (unsigned i = 0; i < cd->getNumElements(); ++i) el.push_back(constant(cd->getElementAsConstant(i)));
    return mkTuple(el);
  }
  return nullptr;
}
void Engine::initBytes(State& s, Obj* o, u64 off, Constant const* c) {
  Type* t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
  if (auto cd = dyn_cast<ConstantDataSequential>(c)) {
    StringRef r = cd->getRawDataValues();
    memcpy(o->bytes.data() + off, r.data(), r.size());
    return;
  }
  if (auto ca = dyn_cast<ConstantArray>(c)) {
    u64 es = DL->getTypeAllocSize(cast<ArrayType>(t)->getElementType());
    for (unsigned i = 0; i < ca->getNumOperands(); ++i) initBytes(s, o, off + i * es, ca->getOperand(i));
    return;
  }
  if (auto cs = dyn_cast<ConstantStruct>(c)) {
    auto sl = DL->getStructLayout(cast<StructType>(t));
    for (unsigned i = 0; i < cs->getNumOperands(); ++i) initBytes(s, o, off + sl->getElementOffset(i), cs->getOperand(i));
    return;
  }
  if (auto cf = dyn_cast<ConstantFP>(c)) {
    APInt b = cf->getValueAPF().bitcastToAPInt();
    memcpy(o->bytes.data() + off, b.getRawData(), (b.getBitWidth() + 7) / 8);
    return;
  }
  Expr* e = constant(c);
  if (!e || e->op != Op::Const) die("unsupported global initialiser");
  unsigned n = (e->w + 7) / 8;
  for (unsigned i = 0; i < n; ++i) o->bytes[off + i] = (u8)(e->v >> (8 * i));
}

void Engine::load(std::string const& path) {
  static LLVMContext C;
  SMDiagnostic err;
  auto m = parseIRFile(path, err, C);
  if (!m) die("cannot read bitcode %s: %s", path.c_str(), err.getMessage().str().c_str());
  M = m.release();
  DL = &M->getDataLayout();
}

void Engine::initState(State& s) {
  u64 slot = 1;
  for (auto& F : *M) {
    auto f = fnOf(&F);
    f->addr = (slot << SLOT_SHIFT) + OBJ_OFF;
    fnAt[f->addr] = f;
    auto o = new Obj();
    o->kind = Kind::Code;
    o->base = f->addr;
    o->size = 0;
    s.mem.put(slot, o);
    ++slot;
    if (auto sp = F.getSubprogram()) f->isLib = !g_opt.libSrc.empty() && sp->getFilename().contains(g_opt.libSrc);
  }
  for (auto& G : M->globals()) {
    u64 size = G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()) : 0;
    if (!G.hasInitializer() && size < 64) size = 64;
    u64 addr = (slot << SLOT_SHIFT) + OBJ_OFF;
    gaddr[&G] = addr;
    if (size > BIG) die("global %s too large", G.getName().str().c_str());
    auto o = new Obj();
    o->kind = G.isConstant() ? Kind::ConstGlobal : Kind::Global;
    o->base = addr;
    o->size = size;
    o->bytes.assign(size, 0);
    o->name = new std::string(G.getName().str());
    s.mem.put(slot, o);
    ++slot;
  }
  for (auto& G : M->globals())
    if (G.hasInitializer()) initBytes(s, s.mem.getW(gaddr[&G] >> SLOT_SHIFT), 0, G.getInitializer());
    else if (G.getName().starts_with("_ZTI")) {  // typeinfo of a fundamental or library type: {vtable, name}
      auto nm = G.getName().drop_front(4).str();
      auto o = new Obj();
      o->kind = Kind::ConstGlobal;
      o->base = (slot << SLOT_SHIFT) + OBJ_OFF;
      o->size = nm.size() + 1;
      o->bytes.assign(nm.begin(), nm.end());
      o->bytes.push_back(0);
      o->name = new std::string("typeinfo name");
      s.mem.put(slot, o);
      auto ti = s.mem.getW(gaddr[&G] >> SLOT_SHIFT);
      memcpy(ti->bytes.data() + 8, &o->base, 8);
      ++slot;
    }
  s.model = Ref<Model>(new Model());
  s.th.emplace_back();
  // main frame, then global constructors on top of it (in priority order)
  auto mf = M->getFunction("sx_main");
  if (!mf) die("no sx_main");
  Thread& t = s.th[0];
  auto push = [&](Function* F) {
    auto f = fnOf(F);
    decode(f);
    Frame fr;
    fr.fn = f;
    fr.regs.assign(f->nregs, nullptr);
    fr.ip = f->blocks[0].firstNonPhi;
    fr.discardRet = true;
    f->executed = true;
    t.fr.push_back(std::move(fr));
  };
  push(mf);
  if (auto gc = M->getGlobalVariable("llvm.global_ctors"))
    if (gc->hasInitializer())
      if (auto ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
        std::vector<std::pair<u64, Function*>> v;
        for (auto& o : ca->operands()) {
          auto cs = cast<ConstantStruct>(o.get());
          auto F = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts());
          if (F) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), F});
        }
        std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
        for (auto it = v.rbegin(); it != v.rend(); ++it) push(it->second);
      }
}

Opnd Engine::opnd(Value* v, std::unordered_map<Value const*, int>& num) {
  Opnd o;
  auto it = num.find(v);
  if (it != num.end()) { o.reg = it->second; return o; }
  if (auto c = dyn_cast<Constant>(v)) { o.k = constant(c); return o; }
  return o;  // metadata, blocks, inline asm
}

void Engine::decode(Fn* f) {
  if (f->decoded) return;
  f->decoded = true;
  Function& F = *f->F;
  std::unordered_map<Value const*, int> num;
  std::unordered_map<BasicBlock const*, int> bn;
  int n = 0;
  for (auto& a : F.args()) num[&a] = n++;
  int b = 0;
  for (auto& B : F) {
    bn[&B] = b++;
    for (auto& I : B)
      if (!I.getType()->isVoidTy()) num[&I] = n++;
  }
  f->nregs = n;
  f->blocks.resize(b);
  b = 0;
  for (auto& B : F) {
    auto& blk = f->blocks[b++];
    bool phi = true;
    for (auto& I : B) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      Inst in;
      in.opc = I.getOpcode();
      in.I = &I;
      in.w = widthOf(I.getType());
      if (!I.getType()->isVoidTy()) in.dst = num[&I];
      if (auto p = dyn_cast<PHINode>(&I)) {
        for (unsigned i = 0; i < p->getNumIncomingValues(); ++i) {
          in.ops.push_back(opnd(p->getIncomingValue(i), num));
          in.auxv.push_back(bn[p->getIncomingBlock(i)]);
        }
      } else {
        if (phi) { blk.firstNonPhi = blk.insts.size(); phi = false; }
        if (auto cb = dyn_cast<CallBase>(&I)) {
          for (auto& a : cb->args()) in.ops.push_back(opnd(a.get(), num));
          in.ops.push_back(opnd(cb->getCalledOperand(), num));
          if (auto cf = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) in.callee = fnOf(cf);
          if (auto iv = dyn_cast<InvokeInst>(&I)) { in.bb0 = bn[iv->getNormalDest()]; in.bb1 = bn[iv->getUnwindDest()]; }
        } else if (auto br = dyn_cast<BranchInst>(&I)) {
          if (br->isConditional()) {
            in.ops.push_back(opnd(br->getCondition(), num));
            in.bb0 = bn[br->getSuccessor(0)];
            in.bb1 = bn[br->getSuccessor(1)];
          } else in.bb0 = bn[br->getSuccessor(0)];
        } else if (auto sw = dyn_cast<SwitchInst>(&I)) {
          in.ops.push_back(opnd(sw->getCondition(), num));
          in.bb0 = bn[sw->getDefaultDest()];
          for (auto& c : sw->cases()) {
            in.auxv.push_back(c.getCaseValue()->getZExtValue());
            in.auxv.push_back(bn[c.getCaseSuccessor()]);
          }
        } else if (auto g = dyn_cast<GetElementPtrInst>(&I)) {
          in.ops.push_back(opnd(g->getPointerOperand(), num));
          i64 cst = 0;
          for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
            Value* idx = gi.getOperand();
            if (auto st = gi.getStructTypeOrNull()) {
              cst += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
            } else {
              u64 sz = DL->getTypeAllocSize(gi.getIndexedType());
              if (auto ci = dyn_cast<ConstantInt>(idx)) cst += ci->getSExtValue() * (i64)sz;
              else { in.ops.push_back(opnd(idx, num)); in.auxv.push_back(sz); }
            }
          }
          in.aux = (u64)cst;
        } else if (auto ev = dyn_cast<ExtractValueInst>(&I)) {
          in.ops.push_back(opnd(ev->getAggregateOperand(), num));
          for (auto i : ev->indices()) in.auxv.push_back(i);
        } else if (auto iv = dyn_cast<InsertValueInst>(&I)) {
          in.ops.push_back(opnd(iv->getAggregateOperand(), num));
          in.ops.push_back(opnd(iv->getInsertedValueOperand(), num));
          for (auto i : iv->indices()) in.auxv.push_back(i);
        } else if (auto al = dyn_cast<AllocaInst>(&I)) {
          in.aux = DL->getTypeAllocSize(al->getAllocatedType());
          in.ops.push_back(opnd(al->getArraySize(), num));
        } else {
          for (auto& o : I.operands()) in.ops.push_back(opnd(o.get(), num));
          if (auto ic = dyn_cast<CmpInst>(&I)) in.aux = ic->getPredicate();
        }
      }
      blk.insts.push_back(std::move(in));
    }
    if (phi) blk.firstNonPhi = blk.insts.size();
  }
}

#include "sched.inc"

// ------------------------------------------------------------------ memory
u64 Engine::allocSlot(State& s, int arena, u64 size, Kind k, bool zero) {
  Thread& t = s.th[arena - 1];
  u64 slot = (u64(arena) << ARENA_SHIFT) | t.nextSlot++;
  if (t.nextSlot >= (1u << ARENA_SHIFT)) die("arena exhausted");
  auto o = new Obj();
  o->kind = k;
  o->base = (slot << SLOT_SHIFT) + OBJ_OFF;
  o->size = size;
  o->bytes.assign(size, 0);
  if (!zero) {
    static Expr* un = nullptr;
    if (!un) { un = new Expr(); un->op = Op::Uninit; un->w = 8; un->syms = nullptr; un->a = un->b = un->c = nullptr; un->sh = 99; }
    o->sym.assign(size, Cell{un, 0});
  }
  s.mem.put(slot, o);
  return o->base;
}
u64 Engine::alloc(State& s, u64 size, Kind k, bool zero) {
  if (size > BIG) die("allocation too large: %llu", (unsigned long long)size);
  return allocSlot(s, s.cur + 1, size, k, zero);
}
bool Engine::freeObj(State& s, u64 addr, Kind k, char const* what) {
  auto o = s.mem.get(addr >> SLOT_SHIFT);
  if (!o || o->base != addr || o->kind != k) {
    violation(s, "memory", std::string(what) + ": invalid or double free");
    return false;
  }
  if (s.th.size() > 1 && !access(s, addr >> SLOT_SHIFT, 0, o->size, true)) return false;
  s.mem.remove(addr >> SLOT_SHIFT);
  return true;
}

static void ensureDom(State& s, u32 id) {
  if (s.domSet.size() <= id) { s.domSet.resize(id + 1, 0); s.multi.resize(id + 1, 0); s.doms.resize(id + 1); }
}
void Engine::addConstraint(State& s, Expr* c) {
  if (c->isConst()) {
    if (!c->v) die("adding false constraint");
    return;
  }
  if (c->op == Op::And && c->w == 1) { addConstraint(s, c->a); addConstraint(s, c->b); return; }
  for (auto p : s.pc) if (p == c) return;
  auto const& ids = c->syms->ids;
  if (ids.size() == 1 && g_syms[ids[0]].w <= 8) {
    u32 id = ids[0];
    ensureDom(s, id);
    auto t = truthTable(c);
    Dom& d = s.doms[id];
    if (!s.domSet[id]) { memset(&d, 0xff, sizeof d); s.domSet[id] = 1; }
    u64 tw[4];
    memcpy(tw, t, 32);
    for (int i = 0; i < 4; ++i) d.w[i] &= tw[i];
  } else {
    for (auto id : ids) { ensureDom(s, id); s.multi[id] = 1; }
  }
  s.pc.push_back(c);
}
// Is c possible in s?  On true m is a model of pc /\ c (may share s.model).
bool Engine::mayBeTrue(State& s, Expr* c, Ref<Model>& m) {
  if (c->isConst()) { m = s.model; return c->v != 0; }
  if (evalExpr(c, *s.model)) { m = s.model; ++g_sstats.modelHits; return true; }
  Expr* nc = mkNot(c);
  for (auto p : s.pc) if (p == nc) { ++g_sstats.cacheHits; return false; }
  auto const& ids = c->syms->ids;
  if (!g_opt.noTable && ids.size() == 1 && g_syms[ids[0]].w <= 8) {
    u32 id = ids[0];
    ensureDom(s, id);
    auto t = truthTable(c);
    u64 tw[4];
    memcpy(tw, t, 32);
    unsigned n = 1u << g_syms[id].w;
    if (s.domSet[id]) for (int i = 0; i < 4; ++i) tw[i] &= s.doms[id].w[i];
    int val = -1;
    for (unsigned v = 0; v < n; ++v) if ((tw[v >> 6] >> (v & 63)) & 1) { val = v; break; }
    if (val < 0) { ++g_sstats.tableDecided; return false; }
    if (!s.multi[id]) {
      ++g_sstats.tableDecided;
      auto nm = new Model();
      nm->vals = s.model->vals;
      nm->set(id, val);
      m = Ref<Model>(nm);
      return true;
    }
  }
  // slice
  std::vector<Expr*> cs{c};
  std::vector<u8> in(g_syms.size(), 0), used(s.pc.size(), 0);
  for (auto i : ids) in[i] = 1;
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < s.pc.size(); ++i) {
      if (used[i]) continue;
      bool hit = false;
      for (auto x : s.pc[i]->syms->ids) if (in[x]) { hit = true; break; }
      if (!hit) continue;
      used[i] = 1;
      cs.push_back(s.pc[i]);
      for (auto x : s.pc[i]->syms->ids) if (!in[x]) { in[x] = 1; ch = true; }
    }
  }
  static std::unordered_map<u64, std::pair<int, std::vector<std::pair<u32, u64>>>> cache;
  u64 key = 0;
  {
    std::vector<u32> k;
    for (auto e : cs) k.push_back(e->id);
    std::sort(k.begin(), k.end());
    for (auto x : k) key = (key ^ x) * 0x9E3779B97F4A7C15ULL + (key >> 29);
    key = key * 31 + k.size();
  }
  auto it = cache.find(key);
  if (it != cache.end()) {
    ++g_sstats.cacheHits;
    if (!it->second.first) return false;
    auto nm = new Model();
    nm->vals = s.model->vals;
    for (auto& p : it->second.second) nm->set(p.first, p.second);
    bool good = true;
    for (auto e : cs) if (!evalExpr(e, *nm)) { good = false; break; }
    if (good) { m = Ref<Model>(nm); return true; }
    delete nm;
  }
  Model tmp;
  tmp.vals = s.model->vals;
  Sat r = solverCheck(cs, &tmp);
  if (r == Sat::Unknown) {
    g_sh->incomplete = 1;
    appendOut("{\"type\":\"incomplete\",\"msg\":\"solver gave up\",\"loc\":" + jstr(where(s)) + "}\n");
    return false;
  }
  if (r == Sat::Unsat) { cache[key] = {0, {}}; return false; }
  auto nm = new Model();
  nm->vals = tmp.vals;
  std::vector<std::pair<u32, u64>> vs;
  for (u32 i = 0; i < in.size(); ++i) if (in[i]) vs.push_back({i, nm->get(i)});
  cache[key] = {1, vs};
  m = Ref<Model>(nm);
  return true;
}
bool Engine::forkOff(State& s, Expr* other, std::function<void(State&)> fix) {
  Ref<Model> m;
  if (!mayBeTrue(s, other, m)) return false;
  auto n = new State(s);
  n->model = m;
  ++g_st.states;
  n->id = g_st.states;
  addConstraint(*n, other);
  n->forks++;
  ++g_st.forks;
  if (fix) fix(*n);
  work.push_back(n);
  return true;
}
// An expression decides control flow / an assertion: does uninitialised memory matter?
bool Engine::checkUndef(State& s, Expr* c, char const* what) {
  if (!c->syms || !c->syms->hasUndef) return true;
  std::unordered_map<u32, Expr*> mp;
  std::unordered_map<Expr*, Expr*> memo;
  for (auto p : s.pc) if (p->syms && p->syms->hasUndef) for (auto i : p->syms->ids) if (g_syms[i].undef) mp[i] = nullptr;
  for (auto i : c->syms->ids) if (g_syms[i].undef) mp[i] = nullptr;
  for (auto& kv : mp) kv.second = mkSym(g_syms[kv.first].name + "'", g_syms[kv.first].w, true);
  std::vector<Expr*> cs = s.pc;
  for (auto p : s.pc) { auto q = substSyms(p, mp, memo); if (q != p) cs.push_back(q); }
  cs.push_back(mkNot(mkEq(c, substSyms(c, mp, memo))));
  Model tmp;
  tmp.vals = s.model->vals;
  Sat r = solverCheck(cs, &tmp);
  if (r == Sat::Sat) {
    auto nm = new Model();
    nm->vals = tmp.vals;
    violation(s, "uninitialised", std::string("uninitialised value decides ") + what, Ref<Model>(nm));
    return false;
  }
  return true;
}
bool Engine::branch(State& s, Expr* c) {
  if (c->isConst()) return c->v != 0;
  bool v = evalExpr(c, *s.model) != 0;
  Expr* mine = v ? c : mkNot(c);
  Expr* other = v ? mkNot(c) : c;
  forkOff(s, other);  // other re-executes the instruction with a model that decides the other way
  addConstraint(s, mine);
  return v;
}
bool Engine::concretize(State& s, Expr* e, u64& out, unsigned) {
  if (e->isConst()) { out = (u64)e->v; return true; }
  u128 v = evalExpr(e, *s.model);
  Expr* eq = mkEq(e, mkConst(v, e->w));
  if (!eq->isConst()) {
    ++g_st.concretized;
    forkOff(s, mkNot(eq));
    addConstraint(s, eq);
  }
  out = (u64)v;
  return true;
}

Expr* Engine::loadBytes(State& s, Obj* o, u64 off, unsigned n) {
  bool conc = true;
  if (!o->sym.empty())
    for (unsigned i = 0; i < n; ++i)
      if (o->sym[off + i].e) { conc = false; break; }
  if (conc) {
    u128 v = 0;
    memcpy(&v, o->bytes.data() + off, n);
    return mkConst(v, n * 8);
  }
  for (unsigned i = 0; i < n; ++i) {
    auto e = o->sym[off + i].e;
    if (e && e->op == Op::Uninit) {
      u64 slot = o->base >> SLOT_SHIFT;
      o = s.mem.getW(slot);
      for (unsigned j = i; j < n; ++j)
        if (o->sym[off + j].e && o->sym[off + j].e->op == Op::Uninit)
          o->sym[off + j] = Cell{mkSym("undef@" + std::to_string(slot) + "+" + std::to_string(off + j), 8, true), 0};
      break;
    }
  }
  // fast path: one whole expression
  {
    auto& c0 = o->sym[off];
    if (c0.e && c0.idx == 0 && c0.e->w == n * 8) {
      bool all = true;
      for (unsigned i = 1; i < n; ++i)
        if (o->sym[off + i].e != c0.e || o->sym[off + i].idx != i) { all = false; break; }
      if (all) return c0.e;
    }
  }
  Expr* r = nullptr;
  for (int i = (int)n - 1; i >= 0; --i) {
    auto& c = o->sym[off + i];
    Expr* b;
    if (!c.e) b = mkConst(o->bytes[off + i], 8);
    else if (c.e->w == 8) b = c.e;
    else b = mkExtract(c.e, c.idx * 8, 8);
    r = r ? mkConcat(r, b) : b;
  }
  return r;
}
void Engine::storeBytes(Obj* o, u64 off, unsigned n, Expr* v) {
  if (v->isConst()) {
    memcpy(o->bytes.data() + off, &v->v, n);
    if (!o->sym.empty()) for (unsigned i = 0; i < n; ++i) o->sym[off + i].e = nullptr;
    return;
  }
  if (o->sym.empty()) o->sym.assign(o->size, Cell{});
  if (v->w != n * 8) v = mkZExt(v, n * 8);
  for (unsigned i = 0; i < n; ++i) {
    Expr* b = nullptr;
    // keep constant bytes constant where that is syntactically visible
    if (v->op == Op::ZExt || v->op == Op::Concat) {
      b = mkExtract(v, i * 8, 8);
      if (b->isConst()) { o->bytes[off + i] = (u8)b->v; o->sym[off + i].e = nullptr; continue; }
    }
    o->sym[off + i] = Cell{v, (u8)i};
  }
}

int Engine::resolve(State& s, Expr* addr, u64 size, bool write, u64& slot, Expr*& off) {
  u64 v = addr->isConst() ? (u64)addr->v : (u64)evalExpr(addr, *s.model);
  slot = v >> SLOT_SHIFT;
  Obj* o = s.mem.get(slot);
  auto bad = [&](std::string const& why) {
    char b[64];
    snprintf(b, sizeof b, " (address 0x%llx, %llu bytes)", (unsigned long long)v, (unsigned long long)size);
    violation(s, "memory", why + b);
    return 1;
  };
  if (!o) return bad(v < 4096 ? "null pointer access" : write ? "write to invalid or freed memory" : "read of invalid or freed memory");
  if (o->kind == Kind::Code) return bad("access to code");
  if (o->dead) return bad("use after scope");
  if (v < o->base || v + size > o->base + o->size || v + size < v) return bad(write ? "out-of-bounds write" : "out-of-bounds read");
  if (write && o->kind == Kind::ConstGlobal) return bad("write to constant");
  if (addr->isConst()) { off = mkConst(v - o->base, 64); return 0; }
  if (!checkUndef(s, addr, "an address")) return 1;
  off = mkBin(Op::Sub, addr, mkConst(o->base, 64));
  Expr* inb = mkBin(Op::Ule, off, mkConst(o->size - size, 64));
  if (!inb->isConst()) {
    forkOff(s, mkNot(inb));
    addConstraint(s, inb);
  }
  return 0;
}

static unsigned byteSize(Type* t, DataLayout const* DL) { return DL->getTypeStoreSize(t); }

Expr* Engine::loadMem(State& s, Expr* addr, Type* t, bool& ok) {
  ok = true;
  if (!widthOf(t)) {
    std::vector<Expr*> el;
    auto sub = [&](Type* et, u64 o) {
      el.push_back(loadMem(s, mkAdd(addr, mkConst(o, 64)), et, ok));
      return ok;
    };
    if (auto st = dyn_cast<StructType>(t)) {
      auto sl = DL->getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); ++i) if (!sub(st->getElementType(i), sl->getElementOffset(i))) return nullptr;
    } else if (auto at = dyn_cast<ArrayType>(t)) {
      for (u64 i = 0; i < at->getNumElements(); ++i) if (!sub(at->getElementType(), i * DL->getTypeAllocSize(at->getElementType()))) return nullptr;
    } else if (auto vt = dyn_cast<FixedVectorType>(t)) {
      for (unsigned i = 0; i < vt->getNumElements(); ++i) if (!sub(vt->getElementType(), i * DL->getTypeAllocSize(vt->getElementType()))) return nullptr;
    } else die("load of unsupported type");
    return mkTuple(el);
  }
  unsigned n = byteSize(t, DL), w = widthOf(t);
  u64 slot;
  Expr* off;
  if (resolve(s, addr, n, false, slot, off)) { ok = false; return nullptr; }
  Obj* o = s.mem.get(slot);
  if (off->isConst()) {
    if (s.th.size() > 1 && !access(s, slot, (u64)off->v, n, false)) { ok = false; return nullptr; }
    return mkZExt(loadBytes(s, s.mem.get(slot), (u64)off->v, n), w);
  }
  // symbolic offset: if-then-else over the feasible offsets
  std::vector<u64> cand;
  if (off->syms->ids.size() == 1 && g_syms[off->syms->ids[0]].w <= 8) {
    u32 id = off->syms->ids[0];
    std::set<u64> cs;
    Model m;
    ensureDom(s, id);
    for (unsigned v = 0; v < (1u << g_syms[id].w); ++v) {
      if (s.domSet[id] && !((s.doms[id].w[v >> 6] >> (v & 63)) & 1)) continue;
      m.epoch = newEpoch();
      m.set(id, v);
      u64 x = (u64)evalExpr(off, m);
      if (x + n <= o->size) cs.insert(x);
    }
    cand.assign(cs.begin(), cs.end());
  } else if (o->size <= 64 * n) {
    u64 al = (u64)evalExpr(off, *s.model) % n;
    // alignment of the offset is usually fixed by construction; check it
    Expr* alc = mkEq(mkBin(Op::URem, off, mkConst(n, 64)), mkConst(al, 64));
    if (!alc->isConst()) { forkOff(s, mkNot(alc)); addConstraint(s, alc); }
    for (u64 x = al; x + n <= o->size; x += n) cand.push_back(x);
  }
  if (cand.empty()) {
    u64 v;
    concretize(s, off, v);
    return mkZExt(loadBytes(s, s.mem.get(slot), v, n), w);
  }
  Expr* r = nullptr;
  for (auto x : cand) {
    Expr* v = mkZExt(loadBytes(s, s.mem.get(slot), x, n), w);
    r = r ? mkIte(mkEq(off, mkConst(x, 64)), v, r) : v;
  }
  return r;
}
bool Engine::storeMem(State& s, Expr* addr, Type* t, Expr* v) {
  if (!widthOf(t)) {
    if (auto st = dyn_cast<StructType>(t)) {
      auto sl = DL->getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); ++i)
        if (!storeMem(s, mkAdd(addr, mkConst(sl->getElementOffset(i), 64)), st->getElementType(i), v->elems[i])) return false;
      return true;
    }
    Type* et;
    u64 cnt;
    if (auto at = dyn_cast<ArrayType>(t)) { et = at->getElementType(); cnt = at->getNumElements(); }
    else if (auto vt = dyn_cast<FixedVectorType>(t)) { et = vt->getElementType(); cnt = vt->getNumElements(); }
    else die("store of unsupported type");
    for (u64 i = 0; i < cnt; ++i)
      if (!storeMem(s, mkAdd(addr, mkConst(i * DL->getTypeAllocSize(et), 64)), et, v->elems[i])) return false;
    return true;
  }
  unsigned n = byteSize(t, DL);
  u64 slot;
  Expr* off;
  if (resolve(s, addr, n, true, slot, off)) return false;
  if (v->w < n * 8) v = mkZExt(v, n * 8);
  if (!off->isConst()) {
    Obj* o = s.mem.get(slot);
    if (o->size <= 64 * n && n <= 8) {
      // read-modify-write of every aligned candidate
      u64 al = (u64)evalExpr(off, *s.model) % n;
      Expr* alc = mkEq(mkBin(Op::URem, off, mkConst(n, 64)), mkConst(al, 64));
      if (!alc->isConst()) { forkOff(s, mkNot(alc)); addConstraint(s, alc); }
      for (u64 x = al; x + n <= o->size; x += n) {
        Expr* old = loadBytes(s, s.mem.get(slot), x, n);
        storeBytes(s.mem.getW(slot), x, n, mkIte(mkEq(off, mkConst(x, 64)), v, old));
      }
      return true;
    }
    u64 c;
    concretize(s, off, c);
    storeBytes(s.mem.getW(slot), c, n, v);
    return true;
  }
  if (s.th.size() > 1 && !access(s, slot, (u64)off->v, n, true)) return false;
  storeBytes(s.mem.getW(slot), (u64)off->v, n, v);
  return true;
}
int Engine::memCopy(State& s, Expr* d, Expr* src, u64 n, bool mayOverlap) {
  if (n == 0) return 0;
  u64 ds, ss;
  Expr *doff, *soff;
  if (resolve(s, src, n, false, ss, soff)) return 1;
  if (resolve(s, d, n, true, ds, doff)) return 1;
  u64 so, dof;
  concretize(s, soff, so);
  concretize(s, doff, dof);
  if (s.th.size() > 1 && (!access(s, ss, so, n, false) || !access(s, ds, dof, n, true))) return 1;
  Obj* dst = s.mem.getW(ds);
  Obj* sr = s.mem.get(ss);
  if (!mayOverlap && ds == ss && so != dof && (so < dof ? so + n > dof : dof + n > so))
    return violation(s, "memory", "memcpy with overlapping ranges");
  if (ds == ss) {
    memmove(dst->bytes.data() + dof, dst->bytes.data() + so, n);
    if (!dst->sym.empty()) {
      std::vector<Cell> tmp(dst->sym.begin() + so, dst->sym.begin() + so + n);
      std::copy(tmp.begin(), tmp.end(), dst->sym.begin() + dof);
    }
    return 0;
  }
  memcpy(dst->bytes.data() + dof, sr->bytes.data() + so, n);
  if (!sr->sym.empty()) {
    if (dst->sym.empty()) dst->sym.assign(dst->size, Cell{});
    std::copy(sr->sym.begin() + so, sr->sym.begin() + so + n, dst->sym.begin() + dof);
  } else if (!dst->sym.empty())
    for (u64 i = 0; i < n; ++i) dst->sym[dof + i].e = nullptr;
  return 0;
}
int Engine::memSet(State& s, Expr* d, Expr* v, u64 n) {
  if (n == 0) return 0;
  u64 ds, dof;
  Expr* doff;
  if (resolve(s, d, n, true, ds, doff)) return 1;
  concretize(s, doff, dof);
  if (s.th.size() > 1 && !access(s, ds, dof, n, true)) return 1;
  Obj* o = s.mem.getW(ds);
  v = mkZExt(v, 8);
  for (u64 i = 0; i < n; ++i) storeBytes(o, dof + i, 1, v);
  return 0;
}
bool Engine::readCStr(State& s, u64 addr, std::string& out) {
  out.clear();
  Obj* o = s.mem.get(addr >> SLOT_SHIFT);
  if (!o) return false;
  for (u64 i = addr - o->base; i < o->size; ++i) {
    if (!o->sym.empty() && o->sym[i].e) return false;
    if (!o->bytes[i]) return true;
    out += (char)o->bytes[i];
  }
  return false;
}
u64 Engine::rd64(State& s, u64 addr) {
  Obj* o = s.mem.get(addr >> SLOT_SHIFT);
  if (!o || addr < o->base || addr + 8 > o->base + o->size) return 0;
  auto e = loadBytes(s, o, addr - o->base, 8);
  return e->isConst() ? (u64)e->v : (u64)evalExpr(e, *s.model);
}
void Engine::wr64(State& s, u64 addr, u64 v) {
  Obj* o = s.mem.getW(addr >> SLOT_SHIFT);
  storeBytes(o, addr - o->base, 8, mkConst(v, 64));
}

// ------------------------------------------------------------------ control
void Engine::jump(State& s, int bb) {
  Frame& f = s.th[s.cur].fr.back();
  int prev = f.bb;
  f.prev = prev;
  f.bb = bb;
  Block& b = f.fn->blocks[bb];
  int np = b.firstNonPhi;
  f.ip = np;
  if (!np) return;
  Expr* tmp[256];
  if (np > 256) die("too many phis");
  for (int i = 0; i < np; ++i) {
    Inst& in = b.insts[i];
    Expr* v = nullptr;
    for (size_t k = 0; k < in.auxv.size(); ++k)
      if ((int)in.auxv[k] == prev) { v = in.ops[k].reg >= 0 ? f.regs[in.ops[k].reg] : in.ops[k].k; break; }
    tmp[i] = v;
  }
  for (int i = 0; i < np; ++i) f.regs[b.insts[i].dst] = tmp[i];
}
void Engine::advanceCall(State& s, Expr* r) {
  Frame& f = s.th[s.cur].fr.back();
  Inst& in = f.fn->blocks[f.bb].insts[f.ip];
  if (in.dst >= 0) f.regs[in.dst] = r;
  if (in.opc == Instruction::Invoke) jump(s, in.bb0);
  else ++f.ip;
}
int Engine::callFn(State& s, Fn* f, std::vector<Expr*> const& args, bool discard) {
  decode(f);
  Thread& t = s.th[s.cur];
  if (t.fr.size() > 2000) return violation(s, "recursion", "call depth exceeded");
  Frame fr;
  fr.fn = f;
  f->executed = true;
  fr.regs.assign(f->nregs, nullptr);
  for (size_t i = 0; i < args.size() && i < f->F->arg_size(); ++i) fr.regs[i] = args[i];
  fr.ip = f->blocks[0].firstNonPhi;
  fr.discardRet = discard;
  fr.slotMark = t.nextSlot;
  t.fr.push_back(std::move(fr));
  return 0;
}
static void dropFrame(State& s, Thread& t) {
  Frame& f = t.fr.back();
  for (auto sl : f.allocas) s.mem.remove(sl);
  if (g_opt.recycle && !f.allocas.empty()) {
    // recycle stack slots if nothing else was allocated after them
    u64 lo = f.allocas.front() & ((1u << ARENA_SHIFT) - 1);
    if (t.nextSlot == lo + f.allocas.size()) t.nextSlot = lo;
  }
  t.fr.pop_back();
}
int Engine::ret(State& s, Expr* v) {
  Thread& t = s.th[s.cur];
  bool disc = t.fr.back().discardRet;
  u64 fr = t.fr.back().freeOnReturn;
  dropFrame(s, t);
  if (fr) s.mem.remove(fr >> SLOT_SHIFT);
  if (t.fr.empty()) {
    if (s.cur == 0) { endPath(s, true); return 1; }
    t.st = TS::Done;
    return schedule(s, true);
  }
  Frame& f = t.fr.back();
  Inst& in = f.fn->blocks[f.bb].insts[f.ip];
  if (disc) {
    // global constructors return into sx_main's first instruction
    if (f.fn->name == "sx_main" || f.discardRet) {
      if (!(in.opc == Instruction::Call || in.opc == Instruction::Invoke) || !fr) {
        if (!fr) return 0;
      }
    }
    if (in.opc == Instruction::Call || in.opc == Instruction::Invoke) advanceCall(s, nullptr);
    return 0;
  }
  advanceCall(s, v);
  return 0;
}

bool Engine::derives(State& s, u64 ti, u64 base, i64& adj, int depth) {
  if (ti == base) return true;
  if (depth > 8) return false;
  Obj* o = s.mem.get(ti >> SLOT_SHIFT);
  if (!o || !o->name) return false;
  // kind by vtable symbol
  u64 vt = rd64(s, ti);
  Obj* vo = s.mem.get(vt >> SLOT_SHIFT);
  if (!vo || !vo->name) return false;
  if (vo->name->find("__si_class_type_info") != std::string::npos) {
    return derives(s, rd64(s, ti + 16), base, adj, depth + 1);
  }
  if (vo->name->find("__vmi_class_type_info") != std::string::npos) {
    u32 n = (u32)(rd64(s, ti + 16) >> 32);
    for (u32 i = 0; i < n; ++i) {
      u64 b = rd64(s, ti + 24 + 16 * i);
      i64 of = (i64)rd64(s, ti + 32 + 16 * i);
      i64 a2 = 0;
      if (derives(s, b, base, a2, depth + 1)) { adj += a2 + (of >> 8); return true; }
    }
  }
  return false;
}
static u32 tiSelector(u64 ti) { return ti ? (u32)((ti >> SLOT_SHIFT) & 0x3fffffff) + 2 : 1; }

int Engine::unwind(State& s, u64 exc) {
  Thread& t = s.th[s.cur];
  auto& info = s.excs[exc];
  while (!t.fr.empty()) {
    Frame& f = t.fr.back();
    Inst& in = f.fn->blocks[f.bb].insts[f.ip];
    if (in.opc == Instruction::Invoke && !f.discardRet) {}
    if (in.opc == Instruction::Invoke) {
      Block& lb = f.fn->blocks[in.bb1];
      int k = 0;
      while (lb.insts[k].opc == Instruction::PHI) ++k;
      auto lp = cast<LandingPadInst>(lb.insts[k].I);
      bool enter = lp->isCleanup();
      u32 sel = 0;
      for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
        if (lp->isCatch(i)) {
          auto c = constant(lp->getClause(i));
          u64 ct = c ? (u64)c->v : 0;
          i64 adj = 0;
          if (ct == 0 || derives(s, info.ti, ct, adj)) {
            enter = true;
            sel = tiSelector(ct);
            info.adj = exc + adj;
            break;
          }
        } else {
          enter = true;  // filter: treat as not matching any allowed type
          sel = 0x7fffffff;
          break;
        }
      }
      if (enter) {
        int dst = lb.insts[k].dst;
        int bb1 = in.bb1;
        jump(s, bb1);
        Frame& f2 = t.fr.back();
        f2.regs[dst] = mkTuple({mkConst(exc, 64), mkConst(sel, 32)});
        f2.ip = k + 1;
        t.inflight = exc;
        return 0;
      }
    }
    dropFrame(s, t);
  }
  std::string tn = "?";
  if (Obj* o = s.mem.get(info.ti >> SLOT_SHIFT)) if (o->name) tn = *o->name;
  return violation(s, "exception", "exception escapes: " + tn);
}

int Engine::violation(State& s, std::string const& kind, std::string const& msg, Ref<Model> m) {
  if (!m) m = s.model;
  std::string loc = where(s);
  static std::map<std::string, int> at;
  if (g_opt.maxViol == 1 || ++at[kind + "@" + loc] <= 2) {
    auto const n = __sync_add_and_fetch(&g_sh->violations, 1);
    writeCase(s, *m, "violation", kind, msg, loc);
    if (n >= g_opt.maxViol) g_sh->stop = 1;
  }
  endPath(s, false);
  return 1;
}
std::string Engine::where(State& s) {
  if (s.th.empty()) return "";
  std::string r;
  Thread& t = s.th[s.cur];
  int n = 0;
  for (auto it = t.fr.rbegin(); it != t.fr.rend() && n < 12; ++it) {
    auto& b = it->fn->blocks[it->bb];
    if (it->ip >= (int)b.insts.size()) continue;
    DILocation const* L = b.insts[it->ip].I->getDebugLoc();
    if (!L) { r += it->fn->name + " < "; ++n; continue; }
    while (L && n < 12) {
      auto fn = L->getFilename().str();
      auto p = fn.rfind('/');
      r += fn.substr(p == std::string::npos ? 0 : p + 1) + ":" + std::to_string(L->getLine()) + " < ";
      ++n;
      L = L->getInlinedAt();
    }
  }
  return r;
}
static std::string hexOf(std::vector<Expr*> const& b, Model const& m) {
  std::string h;
  char t[4];
  for (auto e : b) {
    u128 v = evalExpr(e, m);
    for (unsigned i = 0; i < e->w; i += 8) { snprintf(t, 4, "%02x", (unsigned)(u8)(v >> i)); h += t; }
  }
  return h;
}
void Engine::writeCase(State& s, Model const& m, char const* type, std::string const& kind, std::string const& msg, std::string const& loc) {
  std::string r = std::string("{\"type\":\"") + type + "\",\"kind\":" + jstr(kind) + ",\"msg\":" + jstr(msg) + ",\"loc\":" + jstr(loc) + ",\"inputs\":[";
  bool first = true;
  for (auto& i : s.inputs) {
    if (!first) r += ",";
    first = false;
    r += "[" + jstr(i.name) + ",\"" + hexOf(i.bytes, m) + "\"]";
  }
  r += "],\"obs\":[";
  first = true;
  for (auto e : s.obs) {
    if (!first) r += ",";
    first = false;
    char b[32];
    snprintf(b, 32, "\"%llx\"", (unsigned long long)evalExpr(e, m));
    r += b;
  }
  r += "],\"sched\":[";
  first = true;
  for (auto t : s.sched) { if (!first) r += ","; first = false; r += std::to_string(t); }
  r += "],\"steps\":" + std::to_string(s.steps) + "}\n";
  appendOut(r);
}
static u64 rngState = 0;
static u64 rnd() {
  rngState = rngState * 6364136223846793005ULL + 1442695040888963407ULL;
  return rngState >> 33;
}
void Engine::endPath(State& s, bool normal) {
  if (normal) {
    ++g_st.paths;
    u64 n = __sync_add_and_fetch(&g_sh->paths, 1);
    bool hasUndef = false;
    for (auto e : s.obs) if (e->syms && e->syms->hasUndef) hasUndef = true;
    // keep the first few paths and a thinning random sample of the others
    if (!hasUndef && g_sh->witnesses < g_opt.maxWitness && (n <= g_opt.maxWitness / 2 || rnd() % (1 + n / 4) == 0)) {
      __sync_fetch_and_add(&g_sh->witnesses, 1);
      writeCase(s, *s.model, "witness", "path", "", "");
    }
  } else ++g_st.killed;
}

// ------------------------------------------------------------------ execution
static inline Expr* val(Frame& f, Opnd const& o) { return o.reg >= 0 ? f.regs[o.reg] : o.k; }

static Op binOp(unsigned opc) {
  switch (opc) {
    case Instruction::Add: return Op::Add;
    case Instruction::Sub: return Op::Sub;
    case Instruction::Mul: return Op::Mul;
    case Instruction::UDiv: return Op::UDiv;
    case Instruction::SDiv: return Op::SDiv;
    case Instruction::URem: return Op::URem;
    case Instruction::SRem: return Op::SRem;
    case Instruction::And: return Op::And;
    case Instruction::Or: return Op::Or;
    case Instruction::Xor: return Op::Xor;
    case Instruction::Shl: return Op::Shl;
    case Instruction::LShr: return Op::LShr;
    case Instruction::AShr: return Op::AShr;
    case Instruction::FAdd: return Op::FAdd;
    case Instruction::FSub: return Op::FSub;
    case Instruction::FMul: return Op::FMul;
    case Instruction::FDiv: return Op::FDiv;
    case Instruction::FRem: return Op::FRem;
    default: die("binop");
  }
}
static Expr* icmp(unsigned p, Expr* a, Expr* b) {
  switch (p) {
    case CmpInst::ICMP_EQ: return mkEq(a, b);
    case CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
    case CmpInst::ICMP_ULT: return mkBin(Op::Ult, a, b);
    case CmpInst::ICMP_ULE: return mkBin(Op::Ule, a, b);
    case CmpInst::ICMP_UGT: return mkBin(Op::Ult, b, a);
    case CmpInst::ICMP_UGE: return mkBin(Op::Ule, b, a);
    case CmpInst::ICMP_SLT: return mkBin(Op::Slt, a, b);
    case CmpInst::ICMP_SLE: return mkBin(Op::Sle, a, b);
    case CmpInst::ICMP_SGT: return mkBin(Op::Slt, b, a);
    case CmpInst::ICMP_SGE: return mkBin(Op::Sle, b, a);
    default: die("icmp");
  }
}
static std::set<DILocation const*> g_cov;

struct AtomicScope {
  Engine& e;
  AtomicScope(Engine& x) : e(x) { e.atomicOp = true; }
  ~AtomicScope() { e.atomicOp = false; }
};

// returns 0: continue, 1: path over (or state parked)
int Engine::step(State& s) {
  Thread& t = s.th[s.cur];
  Frame& f = t.fr.back();
  Inst& in = f.fn->blocks[f.bb].insts[f.ip];
  ++s.steps;
  if (!in.seen) {  // first visit: coverage
    in.seen = true;
    if (auto L = in.I->getDebugLoc()) g_cov.insert(L.get());
  }
  auto setr = [&](Expr* e) {
    if (!e) die("unsupported value in: %s", in.I->getOpcodeName());
    f.regs[in.dst] = e;
    ++f.ip;
    return 0;
  };
  auto need = [&](Expr* e) {
    if (!e) {
      std::string str;
      raw_string_ostream os(str);
      in.I->print(os);
      die("unsupported operand: %s", str.c_str());
    }
    return e;
  };
  switch (in.opc) {
    case Instruction::Br:
      if (in.bb1 < 0) { jump(s, in.bb0); return 0; }
      {
        Expr* c = need(val(f, in.ops[0]));
        if (!c->isConst() && !checkUndef(s, c, "a branch")) return 1;
        bool v = branch(s, c);
        jump(s, v ? in.bb0 : in.bb1);
        return 0;
      }
    case Instruction::Switch: {
      Expr* c = need(val(f, in.ops[0]));
      if (c->isConst()) {
        int d = in.bb0;
        for (size_t i = 0; i < in.auxv.size(); i += 2)
          if (mkConst(in.auxv[i], c->w) == c) { d = in.auxv[i + 1]; break; }
        jump(s, d);
        return 0;
      }
      if (!checkUndef(s, c, "a switch")) return 1;
      std::map<int, Expr*> dest;
      Expr* none = mkBool(true);
      for (size_t i = 0; i < in.auxv.size(); i += 2) {
        Expr* e = mkEq(c, mkConst(in.auxv[i], c->w));
        auto& d = dest[in.auxv[i + 1]];
        d = d ? mkOr(d, e) : e;
        none = mkAnd(none, mkNot(e));
      }
      auto& d = dest[in.bb0];
      d = d ? mkOr(d, none) : none;
      int mine = -1;
      for (auto& kv : dest)
        if (evalExpr(kv.second, *s.model)) { mine = kv.first; break; }
      for (auto& kv : dest)
        if (kv.first != mine) forkOff(s, kv.second);
      addConstraint(s, dest[mine]);
      jump(s, mine);
      return 0;
    }
    case Instruction::Ret: return ret(s, in.ops.empty() ? nullptr : val(f, in.ops[0]));
    case Instruction::Unreachable: return violation(s, "unreachable", "undefined behaviour: unreachable code reached");
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or:
    case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      Expr *a = need(val(f, in.ops[0])), *b = need(val(f, in.ops[1]));
      if (a->op == Op::Tuple) {
        std::vector<Expr*> el;
        for (u32 i = 0; i < a->aux; ++i) el.push_back(mkBin(binOp(in.opc), a->elems[i], b->elems[i]));
        return setr(mkTuple(el));
      }
      // an oversized shift is undefined: what the hardware does (the native run decides)
      if ((in.opc == Instruction::Shl || in.opc == Instruction::LShr || in.opc == Instruction::AShr) && (a->w == 32 || a->w == 64) && ubound(b) >= a->w) b = mkBin(Op::And, b, mkConst(a->w - 1, a->w));
      return setr(mkBin(binOp(in.opc), a, b));
    }
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
      Expr *a = need(val(f, in.ops[0])), *b = need(val(f, in.ops[1]));
      Expr* z = mkEq(b, mkConst(0, b->w));
      if (!z->isConst()) {
        if (branch(s, z)) return violation(s, "arithmetic", "division by zero");
      } else if (z->v) return violation(s, "arithmetic", "division by zero");
      return setr(mkBin(binOp(in.opc), a, b));
    }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
      Expr *a = need(val(f, in.ops[0])), *b = need(val(f, in.ops[1]));
      if (a->op == Op::Tuple) {
        std::vector<Expr*> el;
        for (u32 i = 0; i < a->aux; ++i) el.push_back(mkF2(binOp(in.opc), a->elems[i], b->elems[i]));
        return setr(mkTuple(el));
      }
      return setr(mkF2(binOp(in.opc), a, b));
    }
    case Instruction::FNeg: {
      Expr* a = need(val(f, in.ops[0]));
      return setr(mkBin(Op::Xor, a, mkConst(u128(1) << (a->w - 1), a->w)));
    }
    case Instruction::ICmp: {
      Expr *a = need(val(f, in.ops[0])), *b = need(val(f, in.ops[1]));
      if (a->op == Op::Tuple) {
        std::vector<Expr*> el;
        for (u32 i = 0; i < a->aux; ++i) el.push_back(icmp(in.aux, a->elems[i], b->elems[i]));
        return setr(mkTuple(el));
      }
      return setr(icmp(in.aux, a, b));
    }
    case Instruction::FCmp: return setr(mkFCmp(in.aux, need(val(f, in.ops[0])), need(val(f, in.ops[1]))));
    case Instruction::Trunc: return setr(mkExtract(need(val(f, in.ops[0])), 0, in.w));
    case Instruction::ZExt: return setr(mkZExt(need(val(f, in.ops[0])), in.w));
    case Instruction::SExt: return setr(mkSExt(need(val(f, in.ops[0])), in.w));
    case Instruction::PtrToInt: case Instruction::IntToPtr: return setr(mkZExt(need(val(f, in.ops[0])), in.w));
    case Instruction::BitCast: {
      Expr* a = need(val(f, in.ops[0]));
      if (a->op == Op::Tuple && in.w) {
        Expr* r = nullptr;
        for (u32 i = 0; i < a->aux; ++i) r = r ? mkConcat(a->elems[i], r) : a->elems[i];
        return setr(r);
      }
      if (a->op != Op::Tuple && !in.w) {
        auto vt = cast<FixedVectorType>(in.I->getType());
        unsigned ew = widthOf(vt->getElementType());
        std::vector<Expr*> el;
        for (unsigned i = 0; i < vt->getNumElements(); ++i) el.push_back(mkExtract(a, i * ew, ew));
        return setr(mkTuple(el));
      }
      return setr(a);
    }
    case Instruction::AddrSpaceCast: case Instruction::Freeze: return setr(need(val(f, in.ops[0])));
    case Instruction::FPTrunc: case Instruction::FPExt: return setr(mkF1(Op::FConv, need(val(f, in.ops[0])), in.w));
    case Instruction::FPToSI: return setr(mkF1(Op::FToSI, need(val(f, in.ops[0])), in.w));
    case Instruction::FPToUI: return setr(mkF1(Op::FToUI, need(val(f, in.ops[0])), in.w));
    case Instruction::SIToFP: return setr(mkF1(Op::SIToF, need(val(f, in.ops[0])), in.w));
    case Instruction::UIToFP: return setr(mkF1(Op::UIToF, need(val(f, in.ops[0])), in.w));
    case Instruction::Select: {
      Expr *c = need(val(f, in.ops[0])), *a = need(val(f, in.ops[1])), *b = need(val(f, in.ops[2]));
      if (c->op == Op::Tuple) {
        std::vector<Expr*> el;
        for (u32 i = 0; i < c->aux; ++i) el.push_back(mkIte(c->elems[i], a->elems[i], b->elems[i]));
        return setr(mkTuple(el));
      }
      if (!c->isConst() && a != b && (in.I->getType()->isPointerTy() || (g_opt.selectFork && in.w == 64 && a->isConst() && b->isConst()))) {
        // keep pointers and sizes concrete: decide by forking
        if (!checkUndef(s, c, "a pointer selection")) return 1;
        bool v = branch(s, c);
        return setr(v ? a : b);
      }
      return setr(mkIte(c, a, b));
    }
    case Instruction::GetElementPtr: {
      Expr* p = need(val(f, in.ops[0]));
      if (in.aux) p = mkAdd(p, mkConst(in.aux, 64));
      for (size_t i = 1; i < in.ops.size(); ++i) {
        Expr* x = mkSExt(need(val(f, in.ops[i])), 64);
        p = mkAdd(p, mkBin(Op::Mul, x, mkConst(in.auxv[i - 1], 64)));
      }
      // An offset such as n + (c ? 1 : 0): decide the condition by forking and
      // let the live values of this thread know, so that lengths stay concrete.
      if (g_opt.selectFork && !p->isConst())
        for (int k = 0; k < 4; ++k) {
          Expr* c = flagOf(p);
          if (!c) break;
          if (!checkUndef(s, c, "an offset")) return 1;
          bool v = branch(s, c);
          std::unordered_map<Expr*, Expr*> memo;
          p = replaceExpr(p, c, mkBool(v), memo);
          for (auto& fr : s.th[s.cur].fr)
            for (auto& r : fr.regs)
              if (r && !r->isConst()) r = replaceExpr(r, c, mkBool(v), memo);
        }
      return setr(p);
    }
    case Instruction::ExtractValue: {
      Expr* a = need(val(f, in.ops[0]));
      for (auto i : in.auxv) a = a->elems[i];
      return setr(a);
    }
    case Instruction::InsertValue: {
      Expr *a = need(val(f, in.ops[0])), *v = need(val(f, in.ops[1]));
      std::function<Expr*(Expr*, size_t)> ins = [&](Expr* x, size_t k) -> Expr* {
        if (k == in.auxv.size()) return v;
        std::vector<Expr*> el(x->elems, x->elems + x->aux);
        el[in.auxv[k]] = ins(el[in.auxv[k]], k + 1);
        return mkTuple(el);
      };
      return setr(ins(a, 0));
    }
    case Instruction::ExtractElement: {
      Expr *a = need(val(f, in.ops[0])), *i = need(val(f, in.ops[1]));
      if (!i->isConst()) die("symbolic vector index");
      return setr(a->elems[(u64)i->v]);
    }
    case Instruction::InsertElement: {
      Expr *a = need(val(f, in.ops[0])), *v = need(val(f, in.ops[1])), *i = need(val(f, in.ops[2]));
      if (!i->isConst()) die("symbolic vector index");
      std::vector<Expr*> el(a->elems, a->elems + a->aux);
      el[(u64)i->v] = v;
      return setr(mkTuple(el));
    }
    case Instruction::ShuffleVector: {
      Expr *a = need(val(f, in.ops[0])), *b = need(val(f, in.ops[1]));
      auto sv = cast<ShuffleVectorInst>(in.I);
      std::vector<Expr*> el;
      for (int m : sv->getShuffleMask()) {
        if (m < 0) el.push_back(a->elems[0]);
        else if (m < (int)a->aux) el.push_back(a->elems[m]);
        else el.push_back(b->elems[m - a->aux]);
      }
      return setr(mkTuple(el));
    }
    case Instruction::Alloca: {
      Expr* n = need(val(f, in.ops[0]));
      u64 cnt;
      concretize(s, n, cnt);
      u64 a = alloc(s, in.aux * cnt, Kind::Stack);
      f.allocas.push_back(a >> SLOT_SHIFT);
      return setr(mkConst(a, 64));
    }
    case Instruction::Load: {
      if (cast<LoadInst>(in.I)->isAtomic() && s.th.size() > 1) {
        int r = schedule(s, false);
        if (r) return 1;
      }
      Thread& t1 = s.th[s.cur];
      Frame& f1 = t1.fr.back();
      bool ok;
      Expr* p = need(val(f1, in.ops[0]));
      atomicOp = cast<LoadInst>(in.I)->isAtomic();
      Expr* v = loadMem(s, p, in.I->getType(), ok);
      if (!ok) { atomicOp = false; return 1; }
      if (atomicOp) { atomicOp = false; syncAtomic(s, (u64)p->v, cast<LoadInst>(in.I)->getOrdering(), true, false); t1.granted = false; }
      f1.regs[in.dst] = v;
      ++f1.ip;
      return 0;
    }
    case Instruction::Store: {
      if (cast<StoreInst>(in.I)->isAtomic() && s.th.size() > 1) {
        int r = schedule(s, false);
        if (r) return 1;
      }
      Thread& t1 = s.th[s.cur];
      Frame& f1 = t1.fr.back();
      atomicOp = cast<StoreInst>(in.I)->isAtomic();
      if (!storeMem(s, need(val(f1, in.ops[1])), in.I->getOperand(0)->getType(), need(val(f1, in.ops[0])))) { atomicOp = false; return 1; }
      if (atomicOp) { atomicOp = false; syncAtomic(s, (u64)val(f1, in.ops[1])->v, cast<StoreInst>(in.I)->getOrdering(), false, true); t1.granted = false; }
      ++f1.ip;
      return 0;
    }
    case Instruction::AtomicRMW: {
      if (s.th.size() > 1) {
        int r = schedule(s, false);
        if (r) return 1;
      }
      Thread& t1 = s.th[s.cur];
      Frame& f1 = t1.fr.back();
      auto rm = cast<AtomicRMWInst>(in.I);
      Expr *p = need(val(f1, in.ops[0])), *v = need(val(f1, in.ops[1]));
      bool ok;
      Type* ty = rm->getValOperand()->getType();
      AtomicScope as(*this);
      Expr* o = loadMem(s, p, ty, ok);
      if (!ok) return 1;
      Expr* n;
      switch (rm->getOperation()) {
        case AtomicRMWInst::Xchg: n = v; break;
        case AtomicRMWInst::Add: n = mkBin(Op::Add, o, v); break;
        case AtomicRMWInst::Sub: n = mkBin(Op::Sub, o, v); break;
        case AtomicRMWInst::And: n = mkBin(Op::And, o, v); break;
        case AtomicRMWInst::Or: n = mkBin(Op::Or, o, v); break;
        case AtomicRMWInst::Xor: n = mkBin(Op::Xor, o, v); break;
        case AtomicRMWInst::Max: n = mkIte(mkBin(Op::Slt, o, v), v, o); break;
        case AtomicRMWInst::Min: n = mkIte(mkBin(Op::Slt, v, o), v, o); break;
        case AtomicRMWInst::UMax: n = mkIte(mkBin(Op::Ult, o, v), v, o); break;
        case AtomicRMWInst::UMin: n = mkIte(mkBin(Op::Ult, v, o), v, o); break;
        default: die("atomicrmw op");
      }
      if (!storeMem(s, p, ty, n)) return 1;
      syncAtomic(s, (u64)p->v, rm->getOrdering(), true, true);
      t1.granted = false;
      f1.regs[in.dst] = o;
      ++f1.ip;
      return 0;
    }
    case Instruction::AtomicCmpXchg: {
      if (s.th.size() > 1) {
        int r = schedule(s, false);
        if (r) return 1;
      }
      Thread& t1 = s.th[s.cur];
      Frame& f1 = t1.fr.back();
      auto cx = cast<AtomicCmpXchgInst>(in.I);
      Expr *p = need(val(f1, in.ops[0])), *c = need(val(f1, in.ops[1])), *n = need(val(f1, in.ops[2]));
      bool ok;
      Type* ty = cx->getCompareOperand()->getType();
      AtomicScope as(*this);
      Expr* o = loadMem(s, p, ty, ok);
      if (!ok) return 1;
      Expr* eq = mkEq(o, c);
      bool taken = branch(s, eq);
      if (taken && !storeMem(s, p, ty, n)) return 1;
      syncAtomic(s, (u64)p->v, taken ? cx->getSuccessOrdering() : cx->getFailureOrdering(), true, taken);
      t1.granted = false;
      f1.regs[in.dst] = mkTuple({o, mkBool(taken)});
      ++f1.ip;
      return 0;
    }
    case Instruction::Fence: ++f.ip; return 0;
    case Instruction::Call: case Instruction::Invoke: return doCall(s, in);
    case Instruction::Resume: {
      Expr* v = need(val(f, in.ops[0]));
      u64 exc = (u64)v->elems[0]->v;
      dropFrame(s, t);
      return unwind(s, exc);
    }
    default: die("unsupported instruction %s", in.I->getOpcodeName());
  }
}

int Engine::doCall(State& s, Inst& in) {
  Frame& f = s.th[s.cur].fr.back();
  std::vector<Expr*> a;
  a.reserve(in.ops.size());
  for (size_t i = 0; i + 1 < in.ops.size(); ++i) a.push_back(val(f, in.ops[i]));
  Fn* c = in.callee;
  if (!c) {
    Expr* p = val(f, in.ops.back());
    if (!p) {
      auto cb = cast<CallBase>(in.I);
      if (cb->isInlineAsm()) {  // compiler barriers (DoNotOptimize)
        if (in.dst >= 0) die("inline asm with result");
        advanceCall(s, nullptr);
        return 0;
      }
      die("indirect call through unsupported operand");
    }
    if (!p->isConst() && !checkUndef(s, p, "a call target")) return 1;
    u64 addr;
    concretize(s, p, addr);
    auto it = fnAt.find(addr);
    if (it == fnAt.end()) return violation(s, "memory", addr < 4096 ? "call through null pointer" : "call through invalid pointer");
    c = it->second;
  }
  // byval arguments: private copy
  auto cb = cast<CallBase>(in.I);
  for (unsigned i = 0; i < cb->arg_size(); ++i)
    if (cb->isByValArgument(i)) {
      u64 n = DL->getTypeAllocSize(cb->getParamByValType(i));
      u64 p = alloc(s, n, Kind::Stack);
      if (memCopy(s, mkConst(p, 64), a[i], n, true)) return 1;
      a[i] = mkConst(p, 64);
    }
  if (!c->F->isDeclaration()) return callFn(s, c, a);
  if (c->F->isIntrinsic()) return intrinsic(s, in, c->F->getIntrinsicID(), a);
  auto it = bt.find(c->name);
  if (it == bt.end()) die("call to unmodelled function %s", c->name.c_str());
  return builtin(s, in, it->second, a);
}

int Engine::intrinsic(State& s, Inst& in, Intrinsic::ID id, std::vector<Expr*>& a) {
  auto done = [&](Expr* r) { advanceCall(s, r); return 0; };
  unsigned w = in.w;
  switch (id) {
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
    case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing:
    case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::var_annotation:
      return done(nullptr);
    case Intrinsic::invariant_start: case Intrinsic::stacksave: return done(mkConst(0, 64));
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: {
      u64 p = a[1]->isConst() ? (u64)a[1]->v : 0;
      if (Obj* o = s.mem.get(p >> SLOT_SHIFT))
        if (o->kind == Kind::Stack && o->base == p) {
          o = s.mem.getW(p >> SLOT_SHIFT);
          o->dead = id == Intrinsic::lifetime_end;
          if (id == Intrinsic::lifetime_start || o->dead) {
            u64 sz = o->size;
            Expr* un = nullptr;
            static Expr* UN = nullptr;
            if (!UN) { UN = new Expr(); UN->op = Op::Uninit; UN->w = 8; UN->syms = nullptr; UN->a = UN->b = UN->c = nullptr; UN->sh = 99; }
            un = UN;
            std::fill(o->bytes.begin(), o->bytes.end(), 0);
            o->sym.assign(sz, Cell{un, 0});
          }
        }
      return done(nullptr);
    }
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
      u64 n;
      concretize(s, a[2], n);
      if (memCopy(s, a[0], a[1], n, true)) return 1;
      return done(nullptr);
    }
    case Intrinsic::memset: {
      u64 n;
      concretize(s, a[2], n);
      if (memSet(s, a[0], a[1], n)) return 1;
      return done(nullptr);
    }
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group:
    case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy:
    case Intrinsic::ptr_annotation:
      return done(a[0]);
    case Intrinsic::threadlocal_address: {
      if (s.cur == 0) return done(a[0]);
      auto& t = s.th[s.cur].tls;
      auto it = t.find((u64)a[0]->v);
      if (it == t.end()) {
        auto G = dyn_cast<GlobalVariable>(cast<CallBase>(in.I)->getArgOperand(0)->stripPointerCasts());
        if (!G || !G->hasInitializer()) die("thread-local variable");
        u64 p = alloc(s, DL->getTypeAllocSize(G->getValueType()), Kind::Global, true);
        initBytes(s, s.mem.getW(p >> SLOT_SHIFT), 0, G->getInitializer());
        it = s.th[s.cur].tls.emplace((u64)a[0]->v, p).first;
      }
      return done(mkConst(it->second, 64));
    }
    case Intrinsic::is_constant: return done(mkBool(false));  // what is known here is not known to the compiler
    case Intrinsic::objectsize: return done(mkConst(a[1]->v ? 0 : ~u128(0), w));
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap:
      return violation(s, "trap", "trap executed");
    case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow:
    case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: {
      unsigned n = a[0]->w;
      bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
      Op op = id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow ? Op::Add
              : id == Intrinsic::ssub_with_overflow || id == Intrinsic::usub_with_overflow ? Op::Sub : Op::Mul;
      unsigned ww = op == Op::Mul ? 2 * n : n + 1;
      if (ww > 128) die("wide overflow intrinsic");
      Expr* x = sg ? mkSExt(a[0], ww) : mkZExt(a[0], ww);
      Expr* y = sg ? mkSExt(a[1], ww) : mkZExt(a[1], ww);
      Expr* r = mkBin(op, x, y);
      Expr* t = mkExtract(r, 0, n);
      Expr* back = sg ? mkSExt(t, ww) : mkZExt(t, ww);
      return done(mkTuple({t, mkNot(mkEq(back, r))}));
    }
    case Intrinsic::uadd_sat: {
      Expr* r = mkAdd(a[0], a[1]);
      return done(mkIte(mkBin(Op::Ult, r, a[0]), mkConst(~u128(0), w), r));
    }
    case Intrinsic::usub_sat:
      return done(mkIte(mkBin(Op::Ult, a[0], a[1]), mkConst(0, w), mkBin(Op::Sub, a[0], a[1])));
    case Intrinsic::umin: return done(mkIte(mkBin(Op::Ult, a[0], a[1]), a[0], a[1]));
    case Intrinsic::umax: return done(mkIte(mkBin(Op::Ult, a[0], a[1]), a[1], a[0]));
    case Intrinsic::smin: return done(mkIte(mkBin(Op::Slt, a[0], a[1]), a[0], a[1]));
    case Intrinsic::smax: return done(mkIte(mkBin(Op::Slt, a[0], a[1]), a[1], a[0]));
    case Intrinsic::abs: return done(mkIte(mkBin(Op::Slt, a[0], mkConst(0, w)), mkBin(Op::Sub, mkConst(0, w), a[0]), a[0]));
    case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: {
      // a value with one small input: as a case distinction over that input
      // (a chain of bit extractions would make the next iteration's operands huge)
      if (!a[0]->isConst() && a[0]->syms->ids.size() == 1 && g_syms[a[0]->syms->ids[0]].w <= 8) {
        u32 sid = a[0]->syms->ids[0];
        unsigned sw = g_syms[sid].w;
        std::vector<unsigned> vals;
        for (unsigned v = 0; v < (1u << sw) && vals.size() <= 16; ++v)
          if (sid >= s.domSet.size() || !s.domSet[sid] || ((s.doms[sid].w[v >> 6] >> (v & 63)) & 1)) vals.push_back(v);
        if (!vals.empty() && vals.size() <= 16) {
          static Model m;
          Expr *r = nullptr, *sy = g_syms[sid].e;
          for (auto v : vals) {
            m.epoch = newEpoch();
            m.set(sid, v);
            u128 x = evalExpr(a[0], m);
            unsigned n = 0;
            if (id == Intrinsic::ctpop) { for (unsigned i = 0; i < w; ++i) n += (unsigned)((x >> i) & 1); }
            else if (id == Intrinsic::ctlz) { while (n < w && !((x >> (w - 1 - n)) & 1)) ++n; }
            else { while (n < w && !((x >> n) & 1)) ++n; }
            auto c = mkConst(n, w);
            r = r ? mkIte(mkEq(sy, mkConst(v, sw)), c, r) : c;
          }
          return done(r);
        }
      }
      if (id == Intrinsic::ctlz) {
        Expr* r = mkConst(w, w);
        for (unsigned i = 0; i < w; ++i) r = mkIte(mkExtract(a[0], i, 1), mkConst(w - 1 - i, w), r);
        return done(r);
      }
      if (id == Intrinsic::cttz) {
        Expr* r = mkConst(w, w);
        for (int i = (int)w - 1; i >= 0; --i) r = mkIte(mkExtract(a[0], i, 1), mkConst(i, w), r);
        return done(r);
      }
      Expr* r = mkConst(0, w);
      for (unsigned i = 0; i < w; ++i) r = mkAdd(r, mkZExt(mkExtract(a[0], i, 1), w));
      return done(r);
    }
    case Intrinsic::bswap: {
      Expr* r = nullptr;
      for (unsigned i = 0; i < w; i += 8) { auto b = mkExtract(a[0], i, 8); r = r ? mkConcat(r, b) : b; }
      return done(r);
    }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      Expr* sh = mkBin(Op::URem, a[2], mkConst(w, w));
      Expr* inv = mkBin(Op::Sub, mkConst(w, w), sh);
      Expr *x, *y;
      if (id == Intrinsic::fshl) { x = mkBin(Op::Shl, a[0], sh); y = mkBin(Op::LShr, a[1], inv); }
      else { x = mkBin(Op::Shl, a[0], inv); y = mkBin(Op::LShr, a[1], sh); }
      // shift by w yields 0 in our semantics, so sh == 0 is fine
      return done(mkBin(Op::Or, x, y));
    }
    case Intrinsic::fabs: return done(mkBin(Op::And, a[0], mkConst(maskw(w - 1), w)));
    case Intrinsic::sqrt: return done(mkF1(Op::FSqrt, a[0], w));
    case Intrinsic::round: return done(mkF1(Op::FRoundA, a[0], w));
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return done(mkF1(Op::FRoundE, a[0], w));
    case Intrinsic::floor: return done(mkF1(Op::FFloor, a[0], w));
    case Intrinsic::ceil: return done(mkF1(Op::FCeil, a[0], w));
    case Intrinsic::trunc: return done(mkF1(Op::FTrunc, a[0], w));
    case Intrinsic::fmuladd: return done(mkF2(Op::FAdd, mkF2(Op::FMul, a[0], a[1]), a[2]));
    case Intrinsic::copysign:
      return done(mkBin(Op::Or, mkBin(Op::And, a[0], mkConst(maskw(w - 1), w)), mkBin(Op::And, a[1], mkConst(u128(1) << (w - 1), w))));
    case Intrinsic::minnum: return done(mkIte(mkFCmp(CmpInst::FCMP_OLT, a[0], a[1]), a[0], mkIte(mkFCmp(CmpInst::FCMP_UNO, a[1], a[1]), a[0], a[1])));
    case Intrinsic::maxnum: return done(mkIte(mkFCmp(CmpInst::FCMP_OGT, a[0], a[1]), a[0], mkIte(mkFCmp(CmpInst::FCMP_UNO, a[1], a[1]), a[0], a[1])));
    case Intrinsic::is_fpclass: {
      u64 m = (u64)a[1]->v;
      Expr* x = a[0];
      unsigned n = x->w, mb = n == 64 ? 52 : 23, eb = n == 64 ? 11 : 8;
      Expr* ex = mkExtract(x, mb, eb);
      Expr* man = mkExtract(x, 0, mb);
      Expr* sg = mkExtract(x, n - 1, 1);
      Expr* e1 = mkEq(ex, mkConst(maskw(eb), eb));
      Expr* e0 = mkEq(ex, mkConst(0, eb));
      Expr* m0 = mkEq(man, mkConst(0, mb));
      Expr* q = mkExtract(man, mb - 1, 1);
      Expr* r = mkBool(false);
      auto add = [&](unsigned bit, Expr* c) { if (m & (1u << bit)) r = mkOr(r, c); };
      Expr* nan = mkAnd(e1, mkNot(m0));
      add(0, mkAnd(nan, mkNot(q)));
      add(1, mkAnd(nan, q));
      Expr* inf = mkAnd(e1, m0);
      Expr* nrm = mkAnd(mkNot(e1), mkNot(e0));
      Expr* sub = mkAnd(e0, mkNot(m0));
      Expr* zer = mkAnd(e0, m0);
      add(2, mkAnd(inf, sg)); add(3, mkAnd(nrm, sg)); add(4, mkAnd(sub, sg)); add(5, mkAnd(zer, sg));
      add(6, mkAnd(zer, mkNot(sg))); add(7, mkAnd(sub, mkNot(sg))); add(8, mkAnd(nrm, mkNot(sg))); add(9, mkAnd(inf, mkNot(sg)));
      return done(r);
    }
    case Intrinsic::eh_typeid_for: return done(mkConst(tiSelector((u64)a[0]->v), 32));
    case Intrinsic::load_relative: die("load_relative");
    default:
      if (Intrinsic::getBaseName(id) == "llvm.x86.sse2.pause") return done(nullptr);
      die("unsupported intrinsic %s", Intrinsic::getBaseName(id).str().c_str());
  }
}

// ------------------------------------------------------------------ builtins
enum BT {
  B_none, B_sym, B_symint, B_assume, B_assert, B_reach, B_observe, B_param, B_concretize, B_heaplive, B_allocfail, B_native, B_fail, B_print,
  B_malloc, B_calloc, B_free, B_realloc, B_new, B_delete, B_newnothrow, B_newaligned, B_delaligned,
  B_memcpy, B_memmove, B_memset, B_memcmp, B_bcmp,
  B_excalloc, B_excfree, B_throw, B_begincatch, B_endcatch, B_rethrow, B_getexcptr, B_curexc, B_rethrowexc, B_excaddref, B_excrelease, B_uncaught,
  B_guardacq, B_guardrel, B_guardabort, B_nop0, B_abort, B_terminate, B_pure, B_clangterm,
  B_thcreate, B_thjoin, B_thself, B_lock, B_unlock, B_trylock, B_cvwait, B_cvnotify1, B_cvnotifyall, B_yield, B_idle, B_nthreads, B_exctype,
  B_callexpectassert, B_symptrvalid, B_fp1, B_isfailing
};
static void initBuiltins(std::map<std::string, int>& m) {
  m = {
      {"sx_sym", B_sym}, {"sx_sym_int", B_symint}, {"sx_assume", B_assume}, {"sx_assert", B_assert}, {"sx_reach", B_reach},
      {"sx_observe", B_observe}, {"sx_param", B_param}, {"sx_concretize", B_concretize}, {"sx_heap_live", B_heaplive},
      {"sx_alloc_fail", B_allocfail}, {"sx_is_native", B_native}, {"sx_fail", B_fail}, {"sx_print", B_print},
      {"malloc", B_malloc}, {"calloc", B_calloc}, {"free", B_free}, {"realloc", B_realloc},
      {"_Znwm", B_new}, {"_Znam", B_new}, {"_ZdlPv", B_delete}, {"_ZdlPvm", B_delete}, {"_ZdaPv", B_delete}, {"_ZdaPvm", B_delete},
      {"_ZnwmRKSt9nothrow_t", B_newnothrow}, {"_ZnamRKSt9nothrow_t", B_newnothrow}, {"_ZdlPvRKSt9nothrow_t", B_delete},
      {"_ZnwmSt11align_val_t", B_newaligned}, {"_ZnamSt11align_val_t", B_newaligned}, {"_ZdaPvmSt11align_val_t", B_delete}, {"_ZdaPvSt11align_val_t", B_delete}, {"_ZdlPvmSt11align_val_t", B_delete}, {"_ZdlPvSt11align_val_t", B_delete},
      {"memcpy", B_memcpy}, {"memmove", B_memmove}, {"memset", B_memset}, {"memcmp", B_memcmp}, {"bcmp", B_bcmp},
      {"__cxa_allocate_exception", B_excalloc}, {"__cxa_free_exception", B_excfree}, {"__cxa_throw", B_throw},
      {"__cxa_begin_catch", B_begincatch}, {"__cxa_end_catch", B_endcatch}, {"__cxa_rethrow", B_rethrow}, {"__cxa_get_exception_ptr", B_getexcptr},
      {"_ZSt17current_exceptionv", B_curexc}, {"_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE", B_rethrowexc},
      {"_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", B_excaddref}, {"_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv", B_excrelease},
      {"_ZSt19uncaught_exceptionsv", B_uncaught},
      {"__cxa_guard_acquire", B_guardacq}, {"__cxa_guard_release", B_guardrel}, {"__cxa_guard_abort", B_guardabort},
      {"__cxa_atexit", B_nop0}, {"__cxa_thread_atexit", B_nop0}, {"_ZNSt8ios_base4InitC1Ev", B_nop0}, {"_ZNSt8ios_base4InitD1Ev", B_nop0},
      {"abort", B_abort}, {"_ZSt9terminatev", B_terminate}, {"__cxa_pure_virtual", B_pure}, {"exit", B_abort}, {"__assert_fail", B_abort},
      {"_ZSt21__glibcxx_assert_failPKciS0_S0_", B_abort},
      {"sx_thread_create", B_thcreate}, {"sx_thread_join", B_thjoin}, {"sx_thread_self", B_thself},
      {"sx_mutex_lock", B_lock}, {"sx_mutex_unlock", B_unlock}, {"sx_mutex_trylock", B_trylock},
      {"sx_cv_wait", B_cvwait}, {"sx_cv_notify_one", B_cvnotify1}, {"sx_cv_notify_all", B_cvnotifyall}, {"sx_yield", B_yield}, {"sx_idle", B_idle},
      {"sx_exc_type", B_exctype},
      {"sx_round", B_fp1},
  };
}

int Engine::builtin(State& s, Inst& in, int id, std::vector<Expr*>& a) {
  auto done = [&](Expr* r) { advanceCall(s, r); return 0; };
  auto cstr = [&](Expr* e) {
    std::string r;
    u64 v = 0;
    if (e->isConst()) v = (u64)e->v;
    else die("symbolic C string argument");
    if (!readCStr(s, v, r)) die("unreadable C string argument");
    return r;
  };
  unsigned w = in.w;
  switch (id) {
    case B_nop0: return done(w ? mkConst(0, w) : nullptr);
    case B_sym: case B_symint: {
      std::string nm = cstr(a[id == B_sym ? 2 : 1]);
      int occ = s.symOcc[nm]++;
      Input inp;
      inp.name = nm;
      if (id == B_sym) {
        u64 n;
        concretize(s, a[1], n);
        u64 slot;
        Expr* off;
        if (n) {
          if (resolve(s, a[0], n, true, slot, off)) return 1;
          Obj* o = s.mem.getW(slot);
          for (u64 i = 0; i < n; ++i) {
            Expr* y = mkSym(nm + "#" + std::to_string(occ) + "." + std::to_string(i), 8, false);
            inp.bytes.push_back(y);
            storeBytes(o, (u64)off->v + i, 1, y);
          }
        }
        s.inputs.push_back(std::move(inp));
        return done(nullptr);
      }
      unsigned n = (unsigned)a[0]->v;
      Expr* y = mkSym(nm + "#" + std::to_string(occ), n * 8, false);
      inp.bytes.push_back(y);
      s.inputs.push_back(std::move(inp));
      return done(mkZExt(y, 64));
    }
    case B_assume: {
      Expr* c = a[0]->w == 1 ? a[0] : mkNot(mkEq(a[0], mkConst(0, a[0]->w)));
      if (c->isConst()) {
        if (!c->v) { ++g_st.infeasible; endPath(s, false); return 1; }
        return done(nullptr);
      }
      Ref<Model> m;
      if (!mayBeTrue(s, c, m)) { ++g_st.infeasible; endPath(s, false); return 1; }
      s.model = m;
      addConstraint(s, c);
      return done(nullptr);
    }
    case B_assert: {
      Expr* c = a[0]->w == 1 ? a[0] : mkNot(mkEq(a[0], mkConst(0, a[0]->w)));
      std::string msg = cstr(a[1]);
      ++g_st.asserts;
      ++g_st.assertSites[msg];
      if (c->isConst()) {
        if (!c->v) return violation(s, "assert", msg);
        ++g_st.assertsConst;
        return done(nullptr);
      }
      if (!checkUndef(s, c, "an assertion")) return 1;
      Ref<Model> m;
      if (mayBeTrue(s, mkNot(c), m)) return violation(s, "assert", msg, m);
      ++g_st.assertsProved;
      addConstraint(s, c);
      return done(nullptr);
    }
    case B_fail: return violation(s, "assert", cstr(a[0]));
    case B_reach: ++g_st.reach[cstr(a[0])]; return done(nullptr);
    case B_print: fprintf(stderr, "[sx] %s = %s\n", cstr(a[0]).c_str(), exprStr(a[1], 6).c_str()); return done(nullptr);
    case B_observe: s.obs.push_back(a[0]); return done(nullptr);
    case B_param: {
      std::string n = cstr(a[0]);
      auto it = g_opt.params.find(n);
      return done(it == g_opt.params.end() ? mkZExt(a[1], w) : mkConst(it->second, w));
    }
    case B_concretize: {
      u64 v;
      if (!a[0]->isConst() && !checkUndef(s, a[0], "a concretised value")) return 1;
      concretize(s, a[0], v);
      return done(mkConst(v, w));
    }
    case B_heaplive: return done(mkConst((u64)s.heapLive, w));
    case B_allocfail: {
      s.allocFailBudget = (int)(i64)sextw(a[0]->v, a[0]->w);
      s.allocFail = s.allocFailBudget != 0;
      return done(nullptr);
    }
    case B_native: return done(mkConst(0, w));
    case B_malloc: case B_calloc: case B_new: case B_newnothrow: case B_newaligned: {
      Expr* sz = a[0];
      if (id == B_calloc) sz = mkBin(Op::Mul, a[0], a[1]);
      auto fail = [&]() -> int {
        if (id == B_new || id == B_newaligned) {
          auto F = M->getFunction("sx_throw_bad_alloc");
          if (!F) die("no sx_throw_bad_alloc");
          return callFn(s, fnOf(F), {}, false);
        }
        return done(mkConst(0, 64));
      };
      if (!sz->isConst()) {
        // too large requests fail
        Expr* big = mkBin(Op::Ult, mkConst(BIG, 64), sz);
        if (branch(s, big)) return fail();
      }
      u64 n;
      concretize(s, sz, n);
      if (n > BIG) return fail();
      if (s.allocFail) {
        int occ = s.symOcc["allocfail"]++;
        Expr* y = mkSym("allocfail#" + std::to_string(occ), 8, false);
        s.inputs.push_back({"allocfail", {y}});
        // decided right here: fork
        auto n2 = new State(s);
        (void)n2;
        delete n2;
        Expr* c = mkEq(y, mkConst(1, 8));
        Expr* ok = mkEq(y, mkConst(0, 8));
        // the failing continuation is built by hand because this builtin is not re-entrant
        Ref<Model> m;
        if (mayBeTrue(s, c, m)) {
          auto ns = new State(s);
          ns->model = m;
          addConstraint(*ns, c);
          ns->id = ++g_st.states;
          ++g_st.forks;
          if (ns->allocFailBudget > 0 && --ns->allocFailBudget == 0) ns->allocFail = false;
          State* save = cur;
          cur = ns;
          int r;
          {
            if (id == B_new || id == B_newaligned) r = callFn(*ns, fnOf(M->getFunction("sx_throw_bad_alloc")), {}, false);
            else { advanceCall(*ns, mkConst(0, 64)); r = 0; }
          }
          cur = save;
          if (!r) work.push_back(ns); else delete ns;
        }
        addConstraint(s, ok);
        Ref<Model> m2;
        if (!evalExpr(ok, *s.model)) {
          auto nm = new Model();
          nm->vals = s.model->vals;
          nm->set(y->aux, 0);
          s.model = Ref<Model>(nm);
        }
      }
      ++s.heapLive;
      return done(mkConst(alloc(s, n, Kind::Heap, id == B_calloc), 64));
    }
    case B_free: case B_delete: {
      u64 p;
      concretize(s, a[0], p);
      if (!p) return done(nullptr);
      if (!freeObj(s, p, Kind::Heap, id == B_free ? "free" : "delete")) return 1;
      --s.heapLive;
      return done(nullptr);
    }
    case B_realloc: {
      u64 p, n;
      concretize(s, a[0], p);
      if (!a[1]->isConst()) {
        Expr* big = mkBin(Op::Ult, mkConst(BIG, 64), a[1]);
        if (branch(s, big)) return done(mkConst(0, 64));
      }
      concretize(s, a[1], n);
      if (n > BIG) return done(mkConst(0, 64));
      if (s.allocFail) {
        int occ = s.symOcc["allocfail"]++;
        Expr* y = mkSym("allocfail#" + std::to_string(occ), 8, false);
        s.inputs.push_back({"allocfail", {y}});
        auto nf = new State(s);
        Ref<Model> m;
        if (mayBeTrue(*nf, mkEq(y, mkConst(1, 8)), m)) {
          nf->model = m;
          addConstraint(*nf, mkEq(y, mkConst(1, 8)));
          if (nf->allocFailBudget > 0 && --nf->allocFailBudget == 0) nf->allocFail = false;
          advanceCall(*nf, mkConst(0, 64));
          nf->id = ++g_st.states;
          ++g_st.forks;
          work.push_back(nf);
        } else delete nf;
        auto nm = new Model();
        nm->vals = s.model->vals;
        nm->set(y->aux, 0);
        s.model = Ref<Model>(nm);
        addConstraint(s, mkEq(y, mkConst(0, 8)));
      }
      if (p) {
        Obj* o = s.mem.get(p >> SLOT_SHIFT);
        if (!o || o->base != p || o->kind != Kind::Heap) return violation(s, "memory", "realloc of invalid pointer");
        if (n == 0) {  // glibc: frees and returns null
          s.mem.remove(p >> SLOT_SHIFT);
          --s.heapLive;
          return done(mkConst(0, 64));
        }
        u64 q = alloc(s, n, Kind::Heap);
        o = s.mem.get(p >> SLOT_SHIFT);
        u64 k = std::min<u64>(n, o->size);
        if (memCopy(s, mkConst(q, 64), mkConst(p, 64), k, true)) return 1;
        s.mem.remove(p >> SLOT_SHIFT);
        return done(mkConst(q, 64));
      }
      ++s.heapLive;
      return done(mkConst(alloc(s, n, Kind::Heap), 64));
    }
    case B_memcpy: case B_memmove: {
      u64 n;
      concretize(s, a[2], n);
      if (memCopy(s, a[0], a[1], n, id == B_memmove)) return 1;
      return done(a[0]);
    }
    case B_memset: {
      u64 n;
      concretize(s, a[2], n);
      if (memSet(s, a[0], a[1], n)) return 1;
      return done(a[0]);
    }
    case B_memcmp: case B_bcmp: {
      u64 n;
      concretize(s, a[2], n);
      if (n == 0) return done(mkConst(0, w));
      u64 s1, s2, o1, o2;
      Expr *f1, *f2;
      if (resolve(s, a[0], n, false, s1, f1)) return 1;
      if (resolve(s, a[1], n, false, s2, f2)) return 1;
      concretize(s, f1, o1);
      concretize(s, f2, o2);
      Expr* r = mkConst(0, w);
      if (s.th.size() > 1 && (!access(s, s1, o1, n, false) || !access(s, s2, o2, n, false))) return 1;
      for (u64 i = n; i-- > 0;) {
        Expr* x = loadBytes(s, s.mem.get(s1), o1 + i, 1);
        Expr* y = loadBytes(s, s.mem.get(s2), o2 + i, 1);
        Expr* ne = id == B_bcmp ? mkConst(1, w) : mkIte(mkBin(Op::Ult, x, y), mkConst(~u128(0), w), mkConst(1, w));
        r = mkIte(mkEq(x, y), r, ne);
      }
      return done(r);
    }
    // ---- exceptions
    case B_excalloc: {
      u64 n;
      concretize(s, a[0], n);
      return done(mkConst(alloc(s, n, Kind::Exc), 64));
    }
    case B_excfree: s.mem.remove((u64)a[0]->v >> SLOT_SHIFT); return done(nullptr);
    case B_throw: {
      u64 e = (u64)a[0]->v;
      ExcInfo i;
      i.ti = (u64)a[1]->v;
      i.dtor = (u64)a[2]->v;
      i.adj = e;
      s.excs[e] = i;
      return unwind(s, e);
    }
    case B_begincatch: {
      u64 e = (u64)a[0]->v;
      auto& i = s.excs[e];
      i.handlers++;
      Thread& t = s.th[s.cur];
      t.caught.push_back(e);
      t.inflight = 0;
      return done(mkConst(i.adj, 64));
    }
    case B_getexcptr: return done(mkConst(s.excs[(u64)a[0]->v].adj, 64));
    case B_endcatch: {
      Thread& t = s.th[s.cur];
      if (t.caught.empty()) die("end_catch without catch");
      u64 e = t.caught.back();
      t.caught.pop_back();
      auto& i = s.excs[e];
      --i.handlers;
      if (i.rethrown) { i.rethrown = false; return done(nullptr); }
      if (i.handlers == 0) --i.refs;
      if (i.handlers > 0 || i.refs > 0) return done(nullptr);
      u64 d = i.dtor;
      s.excs.erase(e);
      if (!d) { s.mem.remove(e >> SLOT_SHIFT); return done(nullptr); }
      Fn* fn = fnAt.at(d);
      if (fn->F->isDeclaration()) die("exception destructor %s unmodelled", fn->name.c_str());
      callFn(s, fn, {mkConst(e, 64)}, true);
      s.th[s.cur].fr.back().freeOnReturn = e;
      return 0;
    }
    case B_rethrow: {
      Thread& t = s.th[s.cur];
      if (t.caught.empty()) return violation(s, "exception", "rethrow without exception");
      u64 e = t.caught.back();
      s.excs[e].rethrown = true;
      return unwind(s, e);
    }
    case B_curexc: {
      Thread& t = s.th[s.cur];
      u64 e = t.caught.empty() ? 0 : t.caught.back();
      if (e) s.excs[e].refs++;
      if (!storeMem(s, a[0], PointerType::get(M->getContext(), 0), mkConst(e, 64))) return 1;
      return done(nullptr);
    }
    case B_rethrowexc: {
      u64 e = rd64(s, (u64)a[0]->v);
      if (!e) return violation(s, "exception", "rethrow_exception of null");
      s.excs[e].refs++;
      s.excs[e].adj = e;
      return unwind(s, e);
    }
    case B_excaddref: {
      u64 e = rd64(s, (u64)a[0]->v);
      if (e) s.excs[e].refs++;
      return done(nullptr);
    }
    case B_excrelease: {
      u64 e = rd64(s, (u64)a[0]->v);
      if (!e) return done(nullptr);
      auto& i = s.excs[e];
      wr64(s, (u64)a[0]->v, 0);
      if (--i.refs > 0 || i.handlers > 0) return done(nullptr);
      u64 d = i.dtor;
      s.excs.erase(e);
      if (!d) { s.mem.remove(e >> SLOT_SHIFT); return done(nullptr); }
      callFn(s, fnAt.at(d), {mkConst(e, 64)}, true);
      s.th[s.cur].fr.back().freeOnReturn = e;
      return 0;
    }
    case B_uncaught: return done(mkConst(s.th[s.cur].inflight ? 1 : 0, w));
    case B_exctype: {  // type info address of the exception being handled (0: none)
      Thread& t = s.th[s.cur];
      return done(mkConst(t.caught.empty() ? 0 : s.excs[t.caught.back()].ti, w));
    }
    case B_guardacq: {
      Obj* o = s.mem.get((u64)a[0]->v >> SLOT_SHIFT);
      bool init = o->bytes[(u64)a[0]->v - o->base] != 0;
      if (init && s.th.size() > 1) acquire(s, (u64)a[0]->v);
      return done(mkConst(init ? 0 : 1, w));
    }
    case B_guardrel: {
      Obj* o = s.mem.getW((u64)a[0]->v >> SLOT_SHIFT);
      o->bytes[(u64)a[0]->v - o->base] = 1;
      if (s.th.size() > 1) release(s, (u64)a[0]->v);
      return done(nullptr);
    }
    case B_guardabort: return done(nullptr);
    case B_abort: return violation(s, "abort", "abort/assertion failure in library code");
    case B_terminate: return violation(s, "exception", "std::terminate called");
    case B_pure: return violation(s, "memory", "pure virtual call");
    case B_fp1: return done(mkF1(Op::FRoundA, a[0], w));
    // ---- threads
    case B_thcreate: {
      u64 fp;
      concretize(s, a[0], fp);
      auto it = fnAt.find(fp);
      if (it == fnAt.end()) die("thread entry");
      int tid = s.th.size();
      if (tid >= (int)MAXT) die("too many threads");
      s.th.emplace_back();
      if (tid == 1) s.th[0].vc[0] = 1;
      memcpy(s.th[tid].vc, s.th[s.cur].vc, sizeof s.th[tid].vc);
      ++s.th[tid].vc[tid];
      ++s.th[s.cur].vc[s.cur];
      int save = s.cur;
      s.cur = tid;
      callFn(s, it->second, {a[1]}, true);
      s.cur = save;
      return done(mkConst(tid, w));
    }
    case B_thself: return done(mkConst(s.cur, w));
    case B_thjoin: {
      u64 tid = (u64)a[0]->v;
      if (tid >= s.th.size() || s.th[tid].joined) return violation(s, "thread", "join of invalid thread");
      if (s.th[tid].st != TS::Done) {
        Thread& t = s.th[s.cur];
        t.st = TS::WaitJoin;
        t.waitObj = tid;
        return schedule(s, true);
      }
      s.th[tid].joined = true;
      s.th[s.cur].granted = false;
      for (unsigned i = 0; i < MAXT; ++i) s.th[s.cur].vc[i] = std::max(s.th[s.cur].vc[i], s.th[tid].vc[i]);
      return done(nullptr);
    }
    case B_lock: {
      if (s.th.size() > 1) {
        int r = schedule(s, false);
        if (r) return 1;
      }
      u64 m = (u64)a[0]->v;
      u64 owner = rd64(s, m) & 0xffffffff;
      Thread& t = s.th[s.cur];
      if (owner == (u64)s.cur + 1) return violation(s, "thread", "mutex locked twice by the same thread (deadlock)");
      if (owner) {
        t.st = TS::WaitMutex;
        t.waitObj = m;
        t.granted = true;
        return schedule(s, true);
      }
      Obj* o = s.mem.getW(m >> SLOT_SHIFT);
      storeBytes(o, m - o->base, 4, mkConst(s.cur + 1, 32));
      t.granted = false;
      acquire(s, m);
      return done(mkConst(0, w ? w : 32));
    }
    case B_trylock: {
      if (s.th.size() > 1) {
        int r = schedule(s, false);
        if (r) return 1;
      }
      u64 m = (u64)a[0]->v;
      u64 owner = rd64(s, m) & 0xffffffff;
      s.th[s.cur].granted = false;
      if (owner) return done(mkConst(16, w));
      Obj* o = s.mem.getW(m >> SLOT_SHIFT);
      storeBytes(o, m - o->base, 4, mkConst(s.cur + 1, 32));
      acquire(s, m);
      return done(mkConst(0, w));
    }
    case B_unlock: {
      u64 m = (u64)a[0]->v;
      u64 owner = rd64(s, m) & 0xffffffff;
      if (owner != (u64)s.cur + 1) return violation(s, "thread", "unlock of a mutex that is not held");
      Obj* o = s.mem.getW(m >> SLOT_SHIFT);
      storeBytes(o, m - o->base, 4, mkConst(0, 32));
      release(s, m);
      return done(mkConst(0, w ? w : 32));
    }
    case B_cvwait: {
      // two phases: (1) release the mutex and sleep, (2) once woken re-acquire it
      u64 cv = (u64)a[0]->v, m = (u64)a[1]->v;
      Thread& t = s.th[s.cur];
      if (!t.woken) {
        int r = s.th.size() > 1 ? schedule(s, false) : 0;
        if (r) return 1;
        u64 owner = rd64(s, m) & 0xffffffff;
        if (owner != (u64)s.cur + 1) return violation(s, "thread", "condition wait without holding the mutex");
        Obj* o = s.mem.getW(m >> SLOT_SHIFT);
        storeBytes(o, m - o->base, 4, mkConst(0, 32));
        release(s, m);
        t.granted = false;
        t.st = TS::WaitCv;
        t.waitObj = cv;
        t.waitMutex = m;
        return schedule(s, true);
      }
      u64 owner = rd64(s, m) & 0xffffffff;
      if (owner) { t.st = TS::WaitMutex; t.waitObj = m; return schedule(s, true); }
      Obj* o = s.mem.getW(m >> SLOT_SHIFT);
      storeBytes(o, m - o->base, 4, mkConst(s.cur + 1, 32));
      acquire(s, m);
      t.woken = false;
      t.granted = false;
      return done(nullptr);
    }
    case B_cvnotify1: case B_cvnotifyall: {
      if (s.th.size() > 1) {
        int r = schedule(s, false);
        if (r) return 1;
      }
      u64 cv = (u64)a[0]->v;
      s.th[s.cur].granted = false;
      std::vector<int> ws;
      for (size_t i = 0; i < s.th.size(); ++i) if (s.th[i].st == TS::WaitCv && s.th[i].waitObj == cv) ws.push_back(i);
      auto wake = [](State& st, int i) {
        Thread& t = st.th[i];
        t.woken = true;
        t.st = TS::WaitMutex;
        t.waitObj = t.waitMutex;
      };
      if (id == B_cvnotifyall) { for (auto i : ws) wake(s, i); return done(nullptr); }
      // notify_one: any waiter
      for (size_t k = 1; k < ws.size(); ++k) {
        auto n = new State(s);
        n->sched.push_back(1000 + ws[k]);
        wake(*n, ws[k]);
        advanceCall(*n, nullptr);
        n->id = ++g_st.states;
        work.push_back(n);
      }
      if (!ws.empty()) { if (ws.size() > 1) s.sched.push_back(1000 + ws[0]); wake(s, ws[0]); }
      return done(nullptr);
    }
    case B_yield: {
      if (s.th.size() > 1) {
        int r = schedule(s, false);
        if (r) return 1;
      }
      s.th[s.cur].granted = false;
      return done(nullptr);
    }
    case B_idle: {  // sleep until no other thread can run
      Thread& t = s.th[s.cur];
      if (t.waitObj != 0x1d1e && s.th.size() > 1) {
        t.waitObj = 0x1d1e;
        t.st = TS::WaitIdle;
        return schedule(s, true);
      }
      t.waitObj = 0;
      t.granted = false;
      return done(nullptr);
    }
    default: die("builtin %d not implemented", id);
  }
}

// ------------------------------------------------------------------ driver
static void collectCov(std::string& out) {
  std::map<std::string, std::set<unsigned>> lines;
  std::map<std::string, std::set<std::string>> funcs;
  for (auto L : g_cov) {
    for (DILocation const* d = L; d; d = d->getInlinedAt()) {
      std::string fn = d->getFilename().str();
      if (fn.find("/repo/") == std::string::npos && fn.find("include/utl") == std::string::npos) {
        // relative names: resolve against directory
        std::string dir = d->getDirectory().str();
        if ((dir + "/" + fn).find("/repo/") == std::string::npos) continue;
      }
      lines[fn].insert(d->getLine());
      if (auto sp = d->getScope()->getSubprogram()) funcs[fn].insert(sp->getName().str());
    }
  }
  out += ",\"cov\":{";
  bool f1 = true;
  for (auto& kv : lines) {
    if (!f1) out += ",";
    f1 = false;
    out += jstr(kv.first) + ":{\"lines\":[";
    bool f2 = true;
    for (auto l : kv.second) { if (!f2) out += ","; f2 = false; out += std::to_string(l); }
    out += "],\"functions\":[";
    f2 = true;
    for (auto& f : funcs[kv.first]) { if (!f2) out += ","; f2 = false; out += jstr(f); }
    out += "]}";
  }
  out += "}";
}
void Engine::finish() {
  std::string r = "{\"type\":\"stats\"";
  auto add = [&](char const* k, u64 v) { r += std::string(",\"") + k + "\":" + std::to_string(v); };
  add("paths", g_st.paths); add("killed", g_st.killed); add("steps", g_st.steps); add("forks", g_st.forks);
  add("states", g_st.states); add("asserts", g_st.asserts); add("asserts_solver", g_st.assertsProved); add("asserts_const", g_st.assertsConst);
  add("deduped", g_st.deduped); add("sched_points", g_st.schedPoints); add("infeasible", g_st.infeasible); add("concretized", g_st.concretized);
  add("queries", g_sstats.queries); add("sat", g_sstats.sat); add("unsat", g_sstats.unsat); add("unknown", g_sstats.unknown);
  add("fallback", g_sstats.fallback); add("table", g_sstats.tableDecided); add("model_hits", g_sstats.modelHits); add("cache_hits", g_sstats.cacheHits);
  char b[64];
  snprintf(b, 64, ",\"solver_s\":%.3f,\"solver_max_s\":%.3f", g_sstats.time, g_sstats.maxTime);
  r += b;
  r += ",\"reach\":{";
  bool f = true;
  for (auto& kv : g_st.reach) { if (!f) r += ","; f = false; r += jstr(kv.first) + ":" + std::to_string(kv.second); }
  r += "},\"assert_sites\":{";
  f = true;
  for (auto& kv : g_st.assertSites) { if (!f) r += ","; f = false; r += jstr(kv.first) + ":" + std::to_string(kv.second); }
  r += "}";
  collectCov(r);
  r += "}\n";
  appendOut(r);
}
void Engine::maybeSpawn() {
  if (work.empty() || g_sh->slots <= 0) return;
  double n = nowSec();
  if (n - lastSpawn < 0.03) return;
  if (__sync_fetch_and_sub(&g_sh->slots, 1) <= 0) { __sync_fetch_and_add(&g_sh->slots, 1); return; }
  lastSpawn = n;
  fflush(stderr);
  pid_t p = fork();
  if (p < 0) { __sync_fetch_and_add(&g_sh->slots, 1); return; }
  if (p == 0) {
    isChild = true;
    alarm((unsigned)std::max(1.0, g_opt.deadline + 60 - (nowSec() - t0)));
    State* mine = work.front();
    work.clear();   // other states belong to the parent (leaked here on purpose)
    work.push_back(mine);
    cur = nullptr;
    u64 sts = g_st.states;
    (void)sts;
    g_st = Stats();
    g_sstats = SolverStats();
    g_cov.clear();
    for (auto& kv : fns) for (auto& b : kv.second->blocks) for (auto& in : b.insts) in.seen = false;
    rngState ^= getpid();
    lastSpawn = nowSec();
  } else {
    delete work.front();
    work.erase(work.begin());
  }
}
void Engine::run() {
  t0 = nowSec();
  u64 ctr = 0;
  double lastSolver = 0;
  g_solverDeadline = t0 + g_opt.deadline;
  while (!work.empty()) {
    if (g_sh->stop) break;
    State* s = work.back();
    work.pop_back();
    cur = s;
    u64 st0 = s->steps;
    while (true) {
      if ((++ctr & 1023) == 0 || std::abs(g_sstats.time - lastSolver) > 0.1) {
        lastSolver = g_sstats.time;
        if (g_sh->stop) break;
        if (nowSec() - t0 > g_opt.deadline) {
          g_sh->incomplete = 1;
          g_sh->stop = 1;
          appendOut("{\"type\":\"incomplete\",\"msg\":\"time limit\",\"loc\":" + jstr(where(*s)) + "}\n");
          break;
        }
        if ((ctr & 65535) < 1024 && (ctr & 1023) == 0) {
          long pages = 0, rss = 0;
          if (FILE* f = fopen("/proc/self/statm", "r")) {
            if (fscanf(f, "%ld %ld", &pages, &rss) != 2) rss = 0;
            fclose(f);
          }
          if (rss * 4 / 1024 > 27000 / (long)std::max(1u, (unsigned)g_opt.jobs)) {
            g_sh->incomplete = 1;
            g_sh->stop = 1;
            appendOut("{\"type\":\"incomplete\",\"msg\":\"memory limit\",\"loc\":" + jstr(where(*s)) + "}\n");
            break;
          }
        }
        if (g_sh->slots > 0) {
          bool wasChild = isChild;
          maybeSpawn();
          if (isChild && !wasChild) { s = work.back(); work.pop_back(); cur = s; st0 = s->steps; }
          else if (isChild && cur == nullptr) { s = work.back(); work.pop_back(); cur = s; st0 = s->steps; }
        }
      }
      if (s->steps > g_opt.maxSteps) { violation(*s, "nontermination", "step limit exceeded on one path"); break; }
      if (step(*s)) break;
    }
    g_st.steps += s->steps - st0;
    delete s;
    cur = nullptr;
  }
}

int fpSelfTest();
int main(int argc, char** argv) {
  auto& o = g_opt;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--selftest") return fpSelfTest();
    auto next = [&]() { return std::string(argv[++i]); };
    if (a == "-o") o.out = next();
    else if (a == "-p") { auto p = next(); auto e = p.find('='); o.params[p.substr(0, e)] = strtoull(p.c_str() + e + 1, 0, 0); }
    else if (a == "-j") o.jobs = std::stoi(next());
    else if (a == "--deadline") o.deadline = std::stod(next());
    else if (a == "--max-viol") o.maxViol = std::stoull(next());
    else if (a == "--max-steps") o.maxSteps = std::stoull(next());
    else if (a == "--witness") o.maxWitness = std::stoi(next());
    else if (a == "--seed") o.seed = std::stoull(next());
    else if (a == "--no-table") o.noTable = true;
    else if (a == "--no-select-fork") o.selectFork = false;
    else if (a == "--threads") o.threads = true;
    else if (a == "--recycle") o.recycle = true;
    else if (a == "--preempt") o.preemptBound = std::stoi(next());
    else if (a == "--races") o.races = true;
    else if (a == "--spurious") o.spurious = std::stoi(next());
    else if (a == "--lib") o.libSrc = next();
    else o.bitcode = a;
  }
  if (o.out.empty() || o.bitcode.empty()) { fprintf(stderr, "usage: symx -o out.jsonl [-p k=v] [-j n] file.bc\n"); return 3; }
  unlink(o.out.c_str());
  rngState = o.seed * 977 + 12345;
  g_sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void*)g_sh, 0, sizeof(Shared));
  g_sh->slots = (int)o.jobs - 1;
  initVisited();
  alarm((unsigned)o.deadline + 60);  // never outlive the check, whatever a query does
  solverInit(5000, 60000);
  initBuiltins(E.bt);
  E.load(o.bitcode);
  auto s = new State();
  E.initState(*s);
  s->spurious = o.spurious;
  E.work.push_back(s);
  g_st.states = 1;
  E.run();
  E.finish();
  __sync_fetch_and_add(&g_sh->slots, 1);
  int st;
  int bad = 0;
  while (wait(&st) > 0)
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) bad = 1;
  if (bad && !isChild) appendOut("{\"type\":\"error\",\"msg\":\"worker process died\",\"loc\":\"\"}\n");
  _exit(bad ? 3 : 0);
}
