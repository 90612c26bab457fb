// Hash-consed bit-vector expressions with an aggressive simplifier.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <z3.h>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;

enum Op : uint8_t {
  CONST, VAR, ADD, SUB, MUL, UDIV, UREM, SDIV, SREM, AND, OR, XOR, NOT,
  SHL, LSHR, ASHR, EQ, ULT, ULE, SLT, SLE, CONCAT, EXTRACT, SEXT, ITE
};

struct Expr {
  Op op;
  uint16_t w;
  uint32_t id;
  u128 c; // const value, var id, extract offset
  const Expr *k[3];
  mutable uint32_t ep = 0;
  mutable u128 ev = 0;
  mutable Z3_ast zb = nullptr, zv = nullptr;
};
typedef const Expr *E;

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sx(u128 v, unsigned w) {
  if (w >= 128) return (i128)v;
  u128 s = (u128)1 << (w - 1);
  v &= maskw(w);
  return (i128)((v ^ s) - s);
}

struct ExprHash {
  size_t operator()(const Expr *e) const {
    size_t h = e->op * 0x9e3779b97f4a7c15ull + e->w * 0x85ebca6b;
    h ^= (u64)e->c + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h ^= (u64)(e->c >> 64) + (h << 6) + (h >> 2);
    for (int i = 0; i < 3; i++) h ^= (size_t)e->k[i] * 0xff51afd7ed558ccdull + (h << 7) + (h >> 3);
    return h;
  }
};
struct ExprEq {
  bool operator()(const Expr *a, const Expr *b) const {
    return a->op == b->op && a->w == b->w && a->c == b->c && a->k[0] == b->k[0] && a->k[1] == b->k[1] && a->k[2] == b->k[2];
  }
};

struct Ctx {
  std::deque<Expr> pool;
  std::unordered_set<const Expr *, ExprHash, ExprEq> tab;
  uint32_t epoch = 1;
};
extern Ctx X;

inline E raw(Op op, unsigned w, u128 c, E a = nullptr, E b = nullptr, E d = nullptr) {
  Expr t;
  t.op = op; t.w = w; t.c = c; t.k[0] = a; t.k[1] = b; t.k[2] = d;
  auto it = X.tab.find(&t);
  if (it != X.tab.end()) return *it;
  t.id = X.pool.size();
  X.pool.push_back(t);
  E e = &X.pool.back();
  X.tab.insert(e);
  return e;
}

inline E K(u128 v, unsigned w) { return raw(CONST, w, v & maskw(w)); }
inline bool isC(E e) { return e->op == CONST; }
inline bool isC(E e, u128 v) { return e->op == CONST && e->c == (v & maskw(e->w)); }

E mkAdd(E a, E b); E mkSub(E a, E b); E mkMul(E a, E b); E mkDiv(Op op, E a, E b);
E mkAnd(E a, E b); E mkOr(E a, E b); E mkXor(E a, E b); E mkNot(E a);
E mkShl(E a, E b); E mkLshr(E a, E b); E mkAshr(E a, E b);
E mkEq(E a, E b); E mkUlt(E a, E b); E mkUle(E a, E b); E mkSlt(E a, E b); E mkSle(E a, E b);
E mkConcat(E hi, E lo); E mkExtract(E a, unsigned off, unsigned w);
E mkZext(E a, unsigned w); E mkSext(E a, unsigned w); E mkIte(E c, E a, E b);
inline E mkVar(unsigned id) { return raw(VAR, 8, id); }

u128 evalE(E e, const std::vector<uint8_t> &m); // call newEpoch() first when the model changes
inline void newEpoch() { X.epoch++; }

struct Z {
  Z3_context ctx;
  Z();
  Z3_ast b(E e);  // as Bool
  Z3_ast v(E e);  // as bit-vector
};
extern Z *zz;
std::string show(E e, int depth = 6);
u128 knownZeroMask(E e); // bits that are zero in every assignment
void collectVars(E e, std::vector<uint32_t> &out);
