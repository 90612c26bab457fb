// LLVM textual IR loader (the subset rustc emits), functions are parsed lazily.
#pragma once
#include "expr.h"
#include <map>
#include <memory>
#include <string>
#include <vector>

struct Type {
  enum K : uint8_t { Int, Ptr, Void, Arr, Struct, Vec, Float, Other } k;
  unsigned w = 0; // scalar width in bits
  u64 n = 0;
  Type *el = nullptr;
  std::vector<Type *> f;
  std::vector<u64> offs;
  u64 sz = 0, al = 1;
  bool scalar() const { return k == Int || k == Ptr; }
};

struct Agg;
struct Val {
  u64 v = 0;
  const void *p = nullptr; // nullptr: concrete; low bit set: aggregate; otherwise expression
  bool conc() const { return !p; }
  bool isAgg() const { return ((uintptr_t)p & 1) != 0; }
  bool sym() const { return p && !isAgg(); }
  E e() const { return (E)p; }
  const Agg *agg() const { return (const Agg *)((uintptr_t)p & ~(uintptr_t)1); }
};
struct Agg { std::vector<Val> f; };
inline Val cv(u64 v) { Val r; r.v = v; return r; }
inline Val ev(E e) {
  Val r;
  if (e->op == CONST && e->w <= 64) { r.v = (u64)e->c; return r; }
  r.p = e;
  return r;
}
Val av(Agg *a);
Agg *newAgg(size_t n);
inline E toE(const Val &v, unsigned w) { return v.p ? v.e() : K(v.v, w); }

enum IOp : uint8_t {
  I_ADD, I_SUB, I_MUL, I_UDIV, I_SDIV, I_UREM, I_SREM, I_AND, I_OR, I_XOR, I_SHL, I_LSHR, I_ASHR,
  I_ICMP, I_SELECT, I_PHI, I_BR, I_CBR, I_SWITCH, I_RET, I_UNREACH, I_CALL, I_ALLOCA, I_LOAD, I_STORE, I_GEP,
  I_ZEXT, I_SEXT, I_TRUNC, I_CAST, I_BITCAST, I_FREEZE, I_EXTRACTV, I_INSERTV, I_EXTRACTE, I_INSERTE, I_SHUF,
  I_RMW, I_CMPXCHG, I_NOP, I_UNSUP
};
enum Pred : uint8_t { P_EQ, P_NE, P_ULT, P_ULE, P_UGT, P_UGE, P_SLT, P_SLE, P_SGT, P_SGE };
enum Intr : uint8_t {
  N_NONE, N_NOP, N_MEMCPY, N_MEMSET, N_ASSUME, N_EXPECT, N_UADDO, N_USUBO, N_UMULO, N_SADDO, N_SSUBO, N_SMULO,
  N_UADDSAT, N_USUBSAT, N_SADDSAT, N_SSUBSAT, N_UMIN, N_UMAX, N_SMIN, N_SMAX, N_CTPOP, N_CTLZ, N_CTTZ, N_BSWAP,
  N_BITREV, N_FSHL, N_FSHR, N_ABS, N_UCMP, N_SCMP, N_ISCONST, N_TLADDR, N_LOADREL, N_TRAP, N_PTRMASK,
  N_BCMP, N_MEMCMP, N_STRLEN, N_RANDOM, N_MALLOC, N_CALLOC, N_REALLOC, N_FREE, N_MEMALIGN, N_PANIC, N_FORMAT, N_OOM,
  N_REDUCE, N_S_BYTES, N_S_ASSUME, N_S_ASSERT, N_S_ASSERTEQ, N_S_REACH, N_S_CONC, N_S_OBSERVE, N_S_ISSYM, N_UNSUP
};

struct Opd { int reg = -1; Val c; };
struct Func;
struct Ins {
  IOp op;
  uint8_t sub = 0;
  Intr intr = N_NONE;
  bool jumpsAfter = false; // invoke
  int dst = -1, dbg = -1;
  Type *t = nullptr;  // operand type
  Type *rt = nullptr; // result type
  std::vector<Opd> o;
  std::vector<Type *> ot; // operand types (calls, ret)
  std::vector<int> blk;
  std::vector<u64> imm;
  Func *fn = nullptr;
  const char *txt = nullptr;
  const std::string *callee = nullptr;
};
struct Block {
  std::vector<Ins> ins;
  int nphi = 0;
  uint8_t simple = 0; // 0 unknown, 1 yes, 2 no : pure, short and ends in an unconditional branch
};
struct Func {
  std::string name, pretty;
  const char *head = nullptr, *body = nullptr, *end = nullptr;
  bool parsed = false;
  std::vector<Block> blocks;
  int nregs = 0;
  std::vector<int> args;
  Intr hook = N_NONE;
  u64 addr = 0;
  u64 calls = 0;
  int subprog = -1;
};
struct Global {
  std::string name;
  Type *t;
  const char *init; // nullptr: external
  bool constant;
  u64 addr, size;
};

struct Module {
  std::string text;
  std::unordered_map<std::string, Func *> funcs;
  std::unordered_map<std::string, std::string> aliases;
  std::unordered_map<std::string, Global *> globals;
  std::vector<Global *> glist; // by address
  std::map<u64, Func *> faddr;
  std::unordered_map<std::string, const char *> namedT;
  std::unordered_map<std::string, Type *> types;
  std::unordered_map<int, const char *> md;
  void load(const char *path);
  void parse(Func *f);
  void initGlobal(Global *g, std::vector<uint8_t> &out);
  Global *globalAt(u64 a);
};
extern Module M;
Intr classify(const std::string &n);
[[noreturn]] void fatal(const std::string &m);
