#pragma once
#include "state.h"
#include <functional>
#include <llvm/IR/DataLayout.h>

struct Shared {            // lives in a MAP_SHARED mapping, common to all worker processes
  volatile int slots;
  volatile int stop;
  volatile u64 violations;
  volatile u64 visitedCount;
  volatile u64 witnesses;
  volatile u64 paths;
  volatile int incomplete;
};
extern Shared* g_sh;

struct Options {
  std::string bitcode, out;
  std::map<std::string, u64> params;
  unsigned jobs = 1;
  double deadline = 600;
  u64 maxSteps = 20000000;
  u64 maxViol = 1;
  unsigned maxWitness = 6;
  u64 seed = 1;
  bool noTable = false;     // send everything to Z3 (cross check)
  bool threads = false;
  int preemptBound = -1;
  bool races = false;
  int spurious = 0;
  bool leak = true;
  bool recycle = false;
  bool selectFork = true;   // fork on 64-bit selects of constants (sizes stay concrete)
  std::string libSrc;       // substring identifying model-library source files
};
extern Options g_opt;

struct Stats {
  u64 paths = 0, killed = 0, steps = 0, forks = 0, states = 0, asserts = 0, assertsProved = 0, assertsConst = 0, deduped = 0, schedPoints = 0, infeasible = 0, concretized = 0;
  std::map<std::string, u64> reach;
  std::map<std::string, u64> assertSites;
};
extern Stats g_st;

struct Engine {
  llvm::Module* M = nullptr;
  llvm::DataLayout const* DL = nullptr;
  std::unordered_map<llvm::Function const*, Fn*> fns;
  std::vector<Fn*> fnByCode;                 // by code slot
  std::unordered_map<u64, Fn*> fnAt;
  std::unordered_map<llvm::GlobalVariable const*, u64> gaddr;
  std::vector<State*> work;
  State* cur = nullptr;
  std::map<std::string, int> bt;             // builtin name -> id
  double t0 = 0;

  void load(std::string const& path);
  void initState(State& s);
  void run();
  int step(State& s);

  // helpers
  Fn* fnOf(llvm::Function const* F);
  void decode(Fn* f);
  Opnd opnd(llvm::Value* v, std::unordered_map<llvm::Value const*, int>& num);
  Expr* constant(llvm::Constant const* c);
  void initBytes(State& s, Obj* o, u64 off, llvm::Constant const* c);
  unsigned widthOf(llvm::Type* t);
  Expr* zeroOf(llvm::Type* t);

  u64 allocSlot(State& s, int arena, u64 size, Kind k, bool zero);
  u64 alloc(State& s, u64 size, Kind k, bool zero = false);
  bool freeObj(State& s, u64 addr, Kind k, char const* what);

  bool mayBeTrue(State& s, Expr* c, Ref<Model>& m);
  void addConstraint(State& s, Expr* c);
  // returns true if condition is to be taken as true in s; forks the other side off
  bool branch(State& s, Expr* c);
  bool forkOff(State& s, Expr* other, std::function<void(State&)> fix = nullptr);
  bool concretize(State& s, Expr* e, u64& out, unsigned limit = 100000);
  Expr* loadMem(State& s, Expr* addr, llvm::Type* t, bool& ok);
  Expr* loadBytes(State& s, Obj* o, u64 off, unsigned n);
  void storeBytes(Obj* o, u64 off, unsigned n, Expr* v);
  bool storeMem(State& s, Expr* addr, llvm::Type* t, Expr* v);
  // resolves to a concrete object + offset expr; returns 0 ok, 1 path ended
  int resolve(State& s, Expr* addr, u64 size, bool write, u64& slot, Expr*& off);
  bool readCStr(State& s, u64 addr, std::string& out);
  int memCopy(State& s, Expr* d, Expr* src, u64 n, bool mayOverlap);
  int memSet(State& s, Expr* d, Expr* v, u64 n);

  void jump(State& s, int bb);
  void advanceCall(State& s, Expr* ret);
  int callFn(State& s, Fn* f, std::vector<Expr*> const& args, bool discard = false);
  int doCall(State& s, Inst& in);
  int builtin(State& s, Inst& in, int id, std::vector<Expr*>& a);
  int intrinsic(State& s, Inst& in, llvm::Intrinsic::ID id, std::vector<Expr*>& a);
  int ret(State& s, Expr* v);
  int unwind(State& s, u64 exc);
  bool derives(State& s, u64 ti, u64 base, i64& adj, int depth = 0);
  u64 rd64(State& s, u64 addr);
  void wr64(State& s, u64 addr, u64 v);

  int schedule(State& s, bool forced);
  bool enabled(State& s, int t);
  u64 stateHash(State& s);
  bool atomicOp = false;                     // accesses made right now are atomic
  bool access(State& s, u64 slot, u64 off, u64 n, bool write);
  void acquire(State& s, u64 obj);
  void release(State& s, u64 obj, bool keep = false);
  void syncAtomic(State& s, u64 addr, llvm::AtomicOrdering o, bool rd, bool wr);
  std::vector<u32> const& liveAt(Fn* f, int bb, int ip);

  int violation(State& s, std::string const& kind, std::string const& msg, Ref<Model> m = {});
  void endPath(State& s, bool normal);
  std::string where(State& s);
  void writeCase(State& s, Model const& m, char const* type, std::string const& kind, std::string const& msg, std::string const& loc);
  bool checkUndef(State& s, Expr* c, char const* what);
  void finish();
  void maybeSpawn();
};
extern Engine E;
double nowSec();
