// Hash-consed bit-vector expressions with simplification, concrete evaluation
// and lowering to Z3.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>
#include <z3.h>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;

enum class Op : u8 {
  Const, Sym,
  Add, Sub, Mul, UDiv, SDiv, URem, SRem,
  And, Or, Xor, Shl, LShr, AShr,
  Eq, Ult, Ule, Slt, Sle,
  Ite, ZExt, SExt, Extract, Concat,
  // floating point on IEEE-754 bit patterns (w = 32 or 64)
  FAdd, FSub, FMul, FDiv, FRem, FSqrt, FRoundA /*half away*/, FRoundE /*half even*/,
  FFloor, FCeil, FTrunc, FCmp /*aux=llvm predicate*/, FToSI, FToUI, SIToF, UIToF, FConv,
  Tuple,  // aggregate value (not a bit-vector)
  Uninit  // marker cell only
};

struct SymSet {
  std::vector<u32> ids;  // sorted
  u32 id;
  bool hasUndef = false;
};

struct Expr {
  Op op;
  bool isFalseTrueCached = false;
  uint16_t w;
  u32 aux;
  u32 id;
  Expr *a, *b, *c;
  u128 v;         // Const: value
  u64 sh = 0;     // structural hash (process independent)
  SymSet* syms;   // symbols it depends on (nullptr = none)
  Z3_ast zbv = nullptr, zbool = nullptr, zfp = nullptr;
  u32 evEpoch = 0;
  u128 ev = 0;
  u8* table = nullptr;  // unary width<=8 boolean: 32-byte truth table
  Expr** elems = nullptr;  // Tuple: aux = count
  bool isConst() const { return op == Op::Const; }
};

struct SymInfo {
  std::string name;
  u32 w;
  bool undef;
  Expr* e;
};

extern std::vector<SymInfo> g_syms;

struct Model {
  int rc = 0;
  u32 epoch;
  std::vector<u64> vals;
  Model();
  u64 get(u32 s) const { return s < vals.size() ? vals[s] : 0; }
  void set(u32 s, u64 v) {
    if (vals.size() <= s) vals.resize(s + 1, 0);
    vals[s] = v;
  }
};
u32 newEpoch();

[[noreturn]] void die(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

inline u128 maskw(unsigned w) { return w >= 128 ? ~u128(0) : ((u128(1) << w) - 1); }
inline i128 sextw(u128 v, unsigned w) {
  if (w >= 128) return (i128)v;
  u128 m = u128(1) << (w - 1);
  return (i128)((v ^ m) - m);
}

Expr* mkConst(u128 v, unsigned w);
inline Expr* mkBool(bool b) { return mkConst(b ? 1 : 0, 1); }
Expr* mkSym(std::string const& name, unsigned w, bool undef);
u128 ubound(Expr* e, int depth = 3);
Expr* mkBin(Op op, Expr* a, Expr* b);
Expr* mkNot(Expr* a);  // w==1
Expr* mkIte(Expr* c, Expr* a, Expr* b);
Expr* mkZExt(Expr* a, unsigned w);
Expr* mkSExt(Expr* a, unsigned w);
Expr* mkExtract(Expr* a, unsigned lo, unsigned w);
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkF1(Op op, Expr* a, unsigned w);
Expr* mkF2(Op op, Expr* a, Expr* b);
Expr* mkFCmp(unsigned pred, Expr* a, Expr* b);
Expr* mkTuple(std::vector<Expr*> const& el);
inline Expr* mkAdd(Expr* a, Expr* b) { return mkBin(Op::Add, a, b); }
inline Expr* mkEq(Expr* a, Expr* b) { return mkBin(Op::Eq, a, b); }
inline Expr* mkAnd(Expr* a, Expr* b) { return mkBin(Op::And, a, b); }
inline Expr* mkOr(Expr* a, Expr* b) { return mkBin(Op::Or, a, b); }

u128 evalExpr(Expr* e, Model const& m);
// truth table of a boolean expression over a single symbol of width <= 8
u8 const* truthTable(Expr* e);

std::string exprStr(Expr* e, int depth = 4);

// Replace symbols according to map (used for the uninitialised-read check).
Expr* substSyms(Expr* e, std::unordered_map<u32, Expr*> const& m,
                std::unordered_map<Expr*, Expr*>& memo);

Expr* replaceExpr(Expr* e, Expr* from, Expr* to, std::unordered_map<Expr*, Expr*>& memo);
// a condition that decides between constants in an offset, or null
Expr* flagOf(Expr* e, int depth = 6);

// ---- solver -------------------------------------------------------------
struct SolverStats {
  u64 queries = 0, sat = 0, unsat = 0, unknown = 0, fallback = 0;
  u64 cacheHits = 0, modelHits = 0, tableDecided = 0;
  double time = 0, maxTime = 0;
};
extern SolverStats g_sstats;
extern double g_solverDeadline;
enum class Sat { Sat, Unsat, Unknown };
// is /\ cs satisfiable?  On Sat writes the values of all mentioned symbols.
Sat solverCheck(std::vector<Expr*> const& cs, Model* out);
void solverInit(unsigned timeoutMs, unsigned hardTimeoutMs);
extern u64 g_exprCount;
