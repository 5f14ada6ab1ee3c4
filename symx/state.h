#pragma once
#include <cstdint>
typedef uint16_t u16;
#include "expr.h"
#include <map>
#include <set>
#include <memory>
#include <string>
#include <vector>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Module.h>

struct Cell { Expr* e = nullptr; u8 idx = 0; };

enum class Kind : u8 { Global, ConstGlobal, Stack, Heap, Code, Exc };

// last accesses to one byte, as clocks per thread (race detection)
constexpr unsigned MAXT = 6;
struct Shadow { u16 w[MAXT] = {}, r[MAXT] = {}, aw[MAXT] = {}, ar[MAXT] = {}; };

struct Obj {
  int rc = 0;
  Kind kind;
  bool dead = false;      // lifetime ended (stack)
  u64 base, size;
  std::vector<u8> bytes;
  std::vector<Cell> sym;  // empty or size
  std::string* name = nullptr;
  u32 allocTag = 0;
  std::vector<Shadow> shadow;  // race detection: empty or size
  bool hashed = false;
  u64 hash = 0;
};
template <typename T>
struct Ref {
  T* p = nullptr;
  Ref() {}
  Ref(T* q) : p(q) { if (p) ++p->rc; }
  Ref(Ref const& o) : p(o.p) { if (p) ++p->rc; }
  Ref(Ref&& o) noexcept : p(o.p) { o.p = nullptr; }
  Ref& operator=(Ref const& o) { if (o.p) ++o.p->rc; drop(); p = o.p; return *this; }
  Ref& operator=(Ref&& o) noexcept { if (this != &o) { drop(); p = o.p; o.p = nullptr; } return *this; }
  ~Ref() { drop(); }
  void drop() { if (p && --p->rc == 0) delete p; p = nullptr; }
  T* operator->() const { return p; }
  T& operator*() const { return *p; }
  explicit operator bool() const { return p != nullptr; }
};

struct Page { int rc = 0; Ref<Obj> o[64]; };

constexpr unsigned SLOT_SHIFT = 20;
constexpr u64 OBJ_OFF = 0x1000;
constexpr unsigned ARENA_SHIFT = 20;  // slots per arena (thread)
constexpr u64 BIG = (u64(1) << SLOT_SHIFT) - 2 * OBJ_OFF;

struct Mem {
  // arena 0: globals + code, arena 1+t: thread t
  std::vector<std::vector<Ref<Page>>> arenas;
  Obj* get(u64 slot) const {
    u64 ar = slot >> ARENA_SHIFT, ix = slot & ((1u << ARENA_SHIFT) - 1);
    if (ar >= arenas.size()) return nullptr;
    auto& v = arenas[ar];
    u64 pg = ix >> 6;
    if (pg >= v.size() || !v[pg]) return nullptr;
    return v[pg]->o[ix & 63].p;
  }
  Page* pageW(u64 ar, u64 pg) {
    if (ar >= arenas.size()) arenas.resize(ar + 1);
    auto& v = arenas[ar];
    if (pg >= v.size()) v.resize(pg + 1);
    if (!v[pg]) v[pg] = Ref<Page>(new Page());
    else if (v[pg]->rc > 1) {
      auto n = new Page(*v[pg].p);
      n->rc = 0;
      v[pg] = Ref<Page>(n);
    }
    return v[pg].p;
  }
  Obj* getW(u64 slot) {
    u64 ar = slot >> ARENA_SHIFT, ix = slot & ((1u << ARENA_SHIFT) - 1);
    auto p = pageW(ar, ix >> 6);
    auto& r = p->o[ix & 63];
    if (r->rc > 1) {
      auto n = new Obj(*r.p);
      n->rc = 0;
      r = Ref<Obj>(n);
    }
    r->hashed = false;
    return r.p;
  }
  void put(u64 slot, Obj* o) {
    u64 ar = slot >> ARENA_SHIFT, ix = slot & ((1u << ARENA_SHIFT) - 1);
    pageW(ar, ix >> 6)->o[ix & 63] = Ref<Obj>(o);
  }
  void remove(u64 slot) {
    u64 ar = slot >> ARENA_SHIFT, ix = slot & ((1u << ARENA_SHIFT) - 1);
    pageW(ar, ix >> 6)->o[ix & 63] = Ref<Obj>();
  }
};

struct Opnd { int reg = -1; Expr* k = nullptr; };
struct Fn;
struct Inst {
  unsigned opc = 0;       // llvm opcode
  unsigned w = 0;         // result width (bits)
  int dst = -1;
  std::vector<Opnd> ops;
  u64 aux = 0;            // opcode specific
  std::vector<u64> auxv;
  int bb0 = -1, bb1 = -1;
  Fn* callee = nullptr;
  int builtin = -1;
  llvm::Instruction* I = nullptr;
  bool seen = false;      // coverage
  std::vector<u32>* live = nullptr;  // live registers before this instruction (lazily)
};
struct Block {
  std::vector<Inst> insts;
  int firstNonPhi = 0;
};
struct Fn {
  llvm::Function* F = nullptr;
  std::string name;
  bool decoded = false;
  bool executed = false;
  bool isLib = false;     // defined in the library model
  std::vector<Block> blocks;
  unsigned nregs = 0;
  u64 addr = 0;
  std::vector<std::vector<u64>> liveOut;  // per block, bitset
};

struct Frame {
  Fn* fn;
  int bb = 0, ip = 0, prev = -1;
  std::vector<Expr*> regs;
  std::vector<u64> allocas;   // slots
  bool discardRet = false;
  u64 freeOnReturn = 0;
  u64 slotMark = 0;
};
enum class TS : u8 { Run, WaitMutex, WaitCv, WaitJoin, Done, WaitIdle };
struct Thread {
  std::vector<Frame> fr;
  TS st = TS::Run;
  u64 waitObj = 0, waitMutex = 0;
  bool granted = false;
  bool joined = false;
  bool woken = false;         // return value of the finished blocking op is pending
  std::vector<u64> caught;    // exception objects being handled
  u64 inflight = 0;
  u64 nextSlot = 1;
  u16 vc[MAXT] = {};          // vector clock (race detection)
  std::map<u64, u64> tls;     // this thread's copies of thread-local variables
};
struct ExcInfo { u64 ti, dtor; int refs = 1; int handlers = 0; bool rethrown = false; u64 adj = 0; };
struct Dom { u64 w[4]; };
struct Input { std::string name; std::vector<Expr*> bytes; };

struct State {
  std::vector<Thread> th;
  int cur = 0;
  Mem mem;
  std::vector<Expr*> pc;
  std::vector<Dom> doms;       // by symbol id
  std::vector<u8> domSet;      // 0 = all, 1 = restricted
  std::vector<u8> multi;       // symbol occurs in a non-unary constraint
  Ref<Model> model;
  std::map<std::string, int> symOcc;
  std::map<u64, ExcInfo> excs;
  std::vector<Input> inputs;
  std::vector<Expr*> obs;
  std::vector<u16> sched;      // schedule choices (thread per visible step)
  std::vector<std::string> schedNote;
  u64 steps = 0, forks = 0;
  long heapLive = 0;
  bool allocFail = false;
  int allocFailBudget = 0;
  u64 id = 0;
  u64 reach = 0;               // labels
  int preempt = 0;
  int spurious = 0;            // remaining spurious wake-ups
  struct VC { u16 v[MAXT] = {}; };
  std::map<u64, VC> sync;      // released clocks per synchronisation object
};

