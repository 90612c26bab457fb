// Path-exploring symbolic executor for the LLVM IR rustc emits.  Every input byte is a
// symbolic variable; branch feasibility and assertions are decided by z3.
#include "ir.h"
#include <algorithm>
#include <array>
#include <functional>
#include <chrono>
#include <deque>
#include <map>
#include <pthread.h>
#include <set>
#include <stdexcept>
#include <sys/resource.h>

using Clock = std::chrono::steady_clock;
static double now() { return std::chrono::duration<double>(Clock::now().time_since_epoch()).count(); }

// ---------------------------------------------------------------- options and statistics
static std::string oEntry, oOut, oConcrete;
static double oTimeout = 600, oQueryTimeout = 60;
static u64 oMaxPaths = ~0ull, oMaxInstr = 2000000000ull, oPathInstr = 40000000ull;
static unsigned oMuxBits = 10, oStoreCand = 64;
static bool oMerge = true, oVerbose = false;
static u64 oMaxAlloc = 64ull << 20;
static double t0;
static u64 nInstr, nPaths, nForks, nKilled, nQueries, nSat, nUnsat, nUnknown, nFast, nAsserts, nMerges, nCacheHits, nSymAsserts;
static double tSolver;
static std::set<u64> reached;
static std::vector<std::string> incomplete;

struct PathEnd {};
struct StopAll {};
static std::vector<std::string> samples;

// ---------------------------------------------------------------- state
struct Obj {
  int rc = 0;
  u64 base = 0, size = 0;
  bool writable = true, heap = false;
  std::vector<uint8_t> b;
  std::vector<E> s; // empty or size entries; nullptr: concrete byte
};
struct OP {
  Obj *p = nullptr;
  OP() {}
  OP(Obj *o) : p(o) { if (p) p->rc++; }
  OP(const OP &o) : p(o.p) { if (p) p->rc++; }
  OP(OP &&o) noexcept : p(o.p) { o.p = nullptr; }
  OP &operator=(OP o) { std::swap(p, o.p); return *this; }
  ~OP() { if (p && !--p->rc) delete p; }
};
struct Frame {
  int rc = 0;
  Func *f = nullptr;
  int bb = 0, ip = 0, prev = -1;
  int retDst = -1;
  int retBlk = -1; // for invoke
  std::vector<Val> r;
  std::vector<u64> al;
};
struct FP {
  Frame *p = nullptr;
  FP() {}
  FP(Frame *o) : p(o) { if (p) p->rc++; }
  FP(const FP &o) : p(o.p) { if (p) p->rc++; }
  FP(FP &&o) noexcept : p(o.p) { o.p = nullptr; }
  FP &operator=(FP o) { std::swap(p, o.p); return *this; }
  ~FP() { if (p && !--p->rc) delete p; }
};
typedef std::unordered_map<E, E> Known;
struct State {
  std::vector<FP> st;
  std::vector<std::pair<u64, OP>> mem; // sorted by address
  std::vector<E> pc;
  Known known;
  std::vector<uint8_t> model;
  u64 nvars = 0, next = 0x700000000000ull, instrs = 0;
  std::vector<std::pair<Val, unsigned>> obs;
  u64 freedMark = 0;
};
static State *S;
static std::vector<State *> work;
static std::vector<uint8_t> concreteIn;
static bool concreteMode;
static std::unordered_map<u64, OP> constObjs;
static std::vector<uint8_t> dbgHit;

static Frame *top() { return S->st.back().p; }
static void uniqTop() {
  FP &f = S->st.back();
  if (f.p->rc > 1) { Frame *n = new Frame(*f.p); n->rc = 0; f = FP(n); }
}

// ---------------------------------------------------------------- model evaluation
static State *evalFor;
static void modelChanged() { newEpoch(); evalFor = S; }
static u128 evalS(E e) {
  if (evalFor != S) modelChanged();
  return evalE(e, S->model);
}

// ---------------------------------------------------------------- solver
typedef std::vector<u64> Bits;
static std::unordered_map<E, Bits *> varsMemo;
static const Bits &varsOf(E e) {
  auto it = varsMemo.find(e);
  if (it != varsMemo.end()) return *it->second;
  std::vector<uint32_t> v;
  collectVars(e, v);
  Bits *b = new Bits;
  for (auto x : v) { if (b->size() <= x / 64) b->resize(x / 64 + 1); (*b)[x / 64] |= 1ull << (x % 64); }
  varsMemo[e] = b;
  return *b;
}
static bool meets(const Bits &a, const Bits &b) {
  size_t n = std::min(a.size(), b.size());
  for (size_t i = 0; i < n; i++) if (a[i] & b[i]) return true;
  return false;
}
static void join(Bits &a, const Bits &b) {
  if (a.size() < b.size()) a.resize(b.size());
  for (size_t i = 0; i < b.size(); i++) a[i] |= b[i];
}
struct Solver {
  Z3_solver s = nullptr;
  std::unordered_map<E, Z3_ast> lit;
  unsigned nlit = 0, gen = 0;
  void reset() {
    if (s) Z3_solver_dec_ref(zz->ctx, s);
    s = Z3_mk_solver_for_logic(zz->ctx, Z3_mk_string_symbol(zz->ctx, "QF_FD"));
    Z3_solver_inc_ref(zz->ctx, s);
    Z3_params p = Z3_mk_params(zz->ctx);
    Z3_params_inc_ref(zz->ctx, p);
    Z3_params_set_uint(zz->ctx, p, Z3_mk_string_symbol(zz->ctx, "timeout"), (unsigned)(oQueryTimeout * 1000));
    Z3_solver_set_params(zz->ctx, s, p);
    Z3_params_dec_ref(zz->ctx, p);
    lit.clear();
    nlit = 0;
  }
  Z3_ast litOf(E e) {
    auto it = lit.find(e);
    if (it != lit.end()) return it->second;
    char n[32];
    snprintf(n, sizeof n, "p%u", gen++);
    Z3_ast p = Z3_mk_const(zz->ctx, Z3_mk_string_symbol(zz->ctx, n), Z3_mk_bool_sort(zz->ctx));
    Z3_inc_ref(zz->ctx, p);
    Z3_solver_assert(zz->ctx, s, Z3_mk_implies(zz->ctx, p, zz->b(e)));
    lit[e] = p;
    nlit++;
    return p;
  }
};
static Solver solver;
struct QRes { int r; std::vector<std::pair<uint32_t, uint8_t>> m; };
static std::unordered_map<std::string, QRes> qcache;

// 1 sat (model updated in out), 0 unsat, -1 unknown
static int solve(State *s, E q, std::vector<uint8_t> *out) {
  Bits vs = varsOf(q);
  std::vector<E> slice;
  std::vector<char> used(s->pc.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < s->pc.size(); i++)
      if (!used[i]) {
        const Bits &b = varsOf(s->pc[i]);
        if (meets(vs, b)) { used[i] = 1; slice.push_back(s->pc[i]); join(vs, b); ch = true; }
      }
  }
  std::sort(slice.begin(), slice.end(), [](E a, E b) { return a->id < b->id; });
  std::string key;
  for (E e : slice) key.append((const char *)&e->id, 4);
  key.append((const char *)&q->id, 4);
  auto it = qcache.find(key);
  if (it != qcache.end()) {
    nCacheHits++;
    if (it->second.r == 1 && out) for (auto &p : it->second.m) { if (out->size() <= p.first) out->resize(p.first + 1); (*out)[p.first] = p.second; }
    return it->second.r;
  }
  double t = now();
  if (!solver.s || solver.nlit > 600) solver.reset();
  std::vector<Z3_ast> as;
  for (E e : slice) as.push_back(solver.litOf(e));
  as.push_back(solver.litOf(q));
  Z3_lbool r = now() - t0 > oTimeout + 30 ? Z3_L_UNDEF : Z3_solver_check_assumptions(zz->ctx, solver.s, as.size(), as.data());
  nQueries++;
  if (getenv("SYMEX_SLOW") && now() - t > 2) { static int k; FILE *f = fopen((std::string(getenv("SYMEX_SLOW")) + std::to_string(k++)).c_str(), "w"); Z3_solver q2 = Z3_mk_solver(zz->ctx); Z3_solver_inc_ref(zz->ctx, q2); for (E e : slice) Z3_solver_assert(zz->ctx, q2, zz->b(e)); Z3_solver_assert(zz->ctx, q2, zz->b(q)); fputs(Z3_solver_to_string(zz->ctx, q2), f); fputs("(check-sat)\n", f); fclose(f); Z3_solver_dec_ref(zz->ctx, q2); }
  QRes res;
  res.r = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
  if (r == Z3_L_TRUE) {
    nSat++;
    Z3_model m = Z3_solver_get_model(zz->ctx, solver.s);
    Z3_model_inc_ref(zz->ctx, m);
    for (size_t i = 0; i < vs.size(); i++)
      for (unsigned j = 0; j < 64; j++)
        if (vs[i] >> j & 1) {
          uint32_t id = i * 64 + j;
          Z3_ast o = nullptr;
          uint8_t val = 0;
          if (Z3_model_eval(zz->ctx, m, zz->v(mkVar(id)), true, &o) && o) {
            uint64_t x = 0;
            Z3_get_numeral_uint64(zz->ctx, o, &x);
            val = (uint8_t)x;
          }
          res.m.push_back({id, val});
        }
    Z3_model_dec_ref(zz->ctx, m);
    if (out) for (auto &p : res.m) { if (out->size() <= p.first) out->resize(p.first + 1); (*out)[p.first] = p.second; }
  } else if (r == Z3_L_FALSE) nUnsat++;
  else nUnknown++;
  double dt = now() - t;
  tSolver += dt;
  if (oVerbose && dt > 1) fprintf(stderr, "slow query %.1fs slice=%zu r=%d q=%s\n", dt, slice.size(), res.r, show(q, 5).c_str());
  if (dt > 2) solver.reset();
  if (res.r >= 0) qcache[key] = res;
  return res.r;
}

// ---------------------------------------------------------------- facts
static void learn(State *s, E c, bool v);
static void learnEq(State *s, E x, E k) {
  if (isC(x)) return;
  s->known[x] = k;
  if (x->op == CONCAT) {
    unsigned lw = x->k[1]->w;
    learnEq(s, x->k[0], K(k->c >> lw, x->k[0]->w));
    learnEq(s, x->k[1], K(k->c, lw));
  }
}
static void learn(State *s, E c, bool v) {
  if (isC(c)) return;
  s->known[c] = K(v, 1);
  if (c->op == NOT) { learn(s, c->k[0], !v); return; }
  if (c->op == AND && v) { learn(s, c->k[0], true); learn(s, c->k[1], true); return; }
  if (c->op == OR && !v) { learn(s, c->k[0], false); learn(s, c->k[1], false); return; }
  if (c->op == EQ && v) {
    if (isC(c->k[0])) { learnEq(s, c->k[1], c->k[0]); return; }
    if (isC(c->k[1])) { learnEq(s, c->k[0], c->k[1]); return; }
  }
  if (c->op == EQ && !v && c->k[0]->w == 1) {
    if (isC(c->k[0])) learnEq(s, c->k[1], K(!c->k[0]->c, 1));
    else if (isC(c->k[1])) learnEq(s, c->k[0], K(!c->k[1]->c, 1));
    return;
  }
  if (c->op == ULT || c->op == ULE) {
    E x = c->k[0], y = c->k[1];
    if (c->op == ULT) s->known[mkUle(y, x)] = K(!v, 1);
    else s->known[mkUlt(y, x)] = K(!v, 1);
    if (isC(x) || isC(y)) return;
    bool strict = (c->op == ULT) == v; // one is strictly below the other
    if (!v) std::swap(x, y);
    auto put = [&](E e, bool b) { if (!isC(e)) s->known[e] = K(b, 1); };
    if (strict) { put(mkUlt(x, y), true); put(mkUle(x, y), true); put(mkUlt(y, x), false); put(mkUle(y, x), false); put(mkEq(x, y), false); }
    else { put(mkUle(x, y), true); put(mkUlt(y, x), false); }
    return;
  }
  if (c->op == EQ && c->k[0]->w > 1) {
    E x = c->k[0], y = c->k[1];
    if (isC(x) || isC(y)) return;
    auto put = [&](E e, bool b) { if (!isC(e)) s->known[e] = K(b, 1); };
    if (v) { put(mkUle(x, y), true); put(mkUle(y, x), true); put(mkUlt(x, y), false); put(mkUlt(y, x), false); }
    else {
      E a = mkUle(x, y), b = mkUle(y, x);
      auto ka = s->known.find(a), kb = s->known.find(b);
      if (ka != s->known.end() && isC(ka->second) && ka->second->c) { put(mkUlt(x, y), true); put(b, false); put(mkUlt(y, x), false); }
      else if (kb != s->known.end() && isC(kb->second) && kb->second->c) { put(mkUlt(y, x), true); put(a, false); put(mkUlt(x, y), false); }
    }
  }
}
static void addC(State *s, E c) {
  if (c->op == CONST) return;
  if (c->op == AND) { addC(s, c->k[0]); addC(s, c->k[1]); return; }
  s->pc.push_back(c);
  learn(s, c, true);
}

static E rebuild(E e, E a, E b, E c) {
  switch (e->op) {
  case ADD: return mkAdd(a, b); case SUB: return mkSub(a, b); case MUL: return mkMul(a, b);
  case UDIV: case UREM: case SDIV: case SREM: return mkDiv(e->op, a, b);
  case AND: return mkAnd(a, b); case OR: return mkOr(a, b); case XOR: return mkXor(a, b); case NOT: return mkNot(a);
  case SHL: return mkShl(a, b); case LSHR: return mkLshr(a, b); case ASHR: return mkAshr(a, b);
  case EQ: return mkEq(a, b); case ULT: return mkUlt(a, b); case ULE: return mkUle(a, b); case SLT: return mkSlt(a, b); case SLE: return mkSle(a, b);
  case CONCAT: return mkConcat(a, b); case EXTRACT: return mkExtract(a, (unsigned)e->c, e->w); case SEXT: return mkSext(a, e->w);
  case ITE: return mkIte(a, b, c);
  default: return e;
  }
}
static std::unordered_map<E, E> sMemo;
static E substR(const Known &kn, E e) {
  if (e->op == CONST) return e;
  auto k = kn.find(e);
  if (k != kn.end()) return k->second;
  if (e->op == VAR) return e;
  auto m = sMemo.find(e);
  if (m != sMemo.end()) return m->second;
  E a = e->k[0] ? substR(kn, e->k[0]) : nullptr;
  E r;
  if (e->op == ITE && isC(a)) r = substR(kn, a->c ? e->k[1] : e->k[2]);
  else {
    E b = e->k[1] ? substR(kn, e->k[1]) : nullptr, c = e->k[2] ? substR(kn, e->k[2]) : nullptr;
    r = a == e->k[0] && b == e->k[1] && c == e->k[2] ? e : rebuild(e, a, b, c);
  }
  if (r != e) { auto k2 = kn.find(r); if (k2 != kn.end()) r = k2->second; }
  sMemo[e] = r;
  return r;
}
static E subst(E e) {
  if (e->op == CONST) return e;
  if (S->known.empty()) return e;
  sMemo.clear();
  return substR(S->known, e);
}
static inline E quick(E e) {
  if (e->op == CONST || S->known.empty()) return e;
  auto k = S->known.find(e);
  return k == S->known.end() ? e : k->second;
}

// ---------------------------------------------------------------- reporting
static std::string jesc(const std::string &s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r;
}
static std::string inputsHex(const std::vector<uint8_t> &m, u64 n) {
  std::string r;
  char b[4];
  for (u64 i = 0; i < n; i++) { snprintf(b, sizeof b, "%02x", i < m.size() ? m[i] : 0); r += b; }
  return r;
}
static std::string mdField(const char *p, const char *key) {
  const char *nl = strchr(p, '\n');
  std::string l(p, nl), k = std::string(key) + ": ";
  size_t at = 0;
  for (;;) {
    at = l.find(k, at);
    if (at == std::string::npos) return "";
    if (at == 0 || l[at - 1] == ' ' || l[at - 1] == '(') break;
    at++;
  }
  at += k.size();
  if (l[at] == '"') { size_t e = l.find('"', at + 1); return l.substr(at + 1, e - at - 1); }
  size_t e = l.find_first_of(",)", at);
  return l.substr(at, e - at);
}
struct Loc { std::string file, fn; int line = 0; int scope = -1; };
static Loc locOf(int id, bool chain, std::string *inl) {
  Loc r;
  std::string out;
  for (int g = 0; g < 60 && id >= 0; g++) {
    auto it = M.md.find(id);
    if (it == M.md.end()) break;
    Loc l;
    l.line = atoi(mdField(it->second, "line").c_str());
    std::string sc = mdField(it->second, "scope"), in = mdField(it->second, "inlinedAt");
    int si = sc.size() > 1 ? atoi(sc.c_str() + 1) : -1;
    for (int k = 0; k < 40 && si >= 0; k++) {
      auto s = M.md.find(si);
      if (s == M.md.end()) break;
      std::string f = mdField(s->second, "file");
      if (l.file.empty() && !f.empty()) { auto fi = M.md.find(atoi(f.c_str() + 1)); if (fi != M.md.end()) l.file = mdField(fi->second, "filename"); }
      const char *nl = strchr(s->second, '\n');
      if (std::string(s->second, nl).find("DISubprogram(") != std::string::npos) { l.fn = mdField(s->second, "name"); l.scope = si; break; }
      std::string up = mdField(s->second, "scope");
      si = up.size() > 1 ? atoi(up.c_str() + 1) : -1;
    }
    if (g == 0) r = l;
    if (!chain) break;
    out += l.fn + " (" + l.file + ":" + std::to_string(l.line) + ")\n";
    id = in.size() > 1 ? atoi(in.c_str() + 1) : -1;
  }
  if (inl) *inl += out;
  return r;
}
static std::string backtrace() {
  std::string r;
  for (int i = (int)S->st.size() - 1; i >= 0; i--) {
    Frame *f = S->st[i].p;
    if (f->bb < 0 || f->bb >= (int)f->f->blocks.size()) continue;
    auto &B = f->f->blocks[f->bb];
    int ip = std::min<int>(f->ip, (int)B.ins.size() - 1);
    int d = ip >= 0 ? B.ins[ip].dbg : -1;
    r += "  in " + (f->f->pretty.empty() ? f->f->name : f->f->pretty) + "\n";
    std::string inl;
    if (d >= 0) locOf(d, true, &inl);
    size_t p = 0;
    while (p < inl.size()) { size_t e = inl.find('\n', p); r += "    " + inl.substr(p, e - p) + "\n"; p = e + 1; }
  }
  return r;
}
static std::string vKind, vMsg, vInputs, vStack;
static void violation(const std::string &kind, const std::string &msg, const std::vector<uint8_t> &model) {
  vKind = kind;
  vMsg = msg;
  vInputs = inputsHex(model, S->nvars);
  vStack = backtrace();
  throw StopAll();
}
static void engineStop(const std::string &m) { // the path cannot be followed any further: result incomplete
  std::string t = m + "\n" + backtrace();
  if (incomplete.size() < 20) incomplete.push_back(t);
  throw PathEnd();
}

// ---------------------------------------------------------------- forking
// the copy shares the top frame: give the running state its own, callers must re-read top()
static State *fork() { nForks++; State *o = new State(*S); uniqTop(); return o; }

// decide a condition; forks when both sides are feasible
static bool decide(E c) {
  c = quick(c);
  if (isC(c)) return c->c;
  E c2 = subst(c);
  if (isC(c2)) { nFast++; return c2->c; }
  bool v = evalS(c2);
  E other = v ? mkNot(c2) : c2;
  if (!isC(other)) {
    std::vector<uint8_t> m = S->model;
    int r = solve(S, other, &m);
    if (r < 0) {
      if (incomplete.size() < 20) incomplete.push_back("solver gave no answer\n" + backtrace());
    } else if (r == 1) {
      State *o = fork();
      o->model = m;
      addC(o, other);
      learn(o, c, !v);
      work.push_back(o);
    } else {
      learn(S, c2, v);
      learn(S, c, v);
      return v;
    }
  }
  addC(S, v ? c2 : mkNot(c2));
  learn(S, c, v);
  return v;
}
static u64 concretize(E e) {
  e = quick(e);
  if (isC(e)) return (u64)e->c;
  E e2 = subst(e);
  if (isC(e2)) return (u64)e2->c;
  u64 v = (u64)evalS(e2);
  E eq = mkEq(e2, K(v, e2->w));
  E ne = mkNot(eq);
  if (!isC(ne)) {
    std::vector<uint8_t> m = S->model;
    int r = solve(S, ne, &m);
    if (r < 0) {
      if (incomplete.size() < 20) incomplete.push_back("solver gave no answer\n" + backtrace());
    } else if (r == 1) {
      State *o = fork();
      o->model = m;
      addC(o, ne);
      work.push_back(o);
    }
    addC(S, eq);
  }
  learnEq(S, e, K(v, e->w));
  learnEq(S, e2, K(v, e->w));
  return v;
}

// ---------------------------------------------------------------- memory
static Obj *constObj(u64 a) {
  Global *g = M.globalAt(a);
  if (!g) return nullptr;
  auto it = constObjs.find(g->addr);
  if (it != constObjs.end()) return it->second.p;
  Obj *o = new Obj;
  o->base = g->addr;
  o->size = g->size;
  o->writable = !g->constant;
  M.initGlobal(g, o->b);
  constObjs[g->addr] = OP(o);
  return o;
}
static int memIdx(u64 a) {
  auto &m = S->mem;
  size_t lo = 0, hi = m.size();
  while (lo < hi) { size_t k = (lo + hi) / 2; if (m[k].first <= a) lo = k + 1; else hi = k; }
  if (!lo) return -1;
  Obj *o = m[lo - 1].second.p;
  return a <= o->base + o->size ? (int)lo - 1 : -1;
}
static Obj *findObj(u64 a) {
  int i = memIdx(a);
  if (i >= 0) return S->mem[i].second.p;
  return a >= 0x20000000 && a < 0x700000000000ull ? constObj(a) : nullptr;
}
static Obj *writableObj(u64 a) {
  int i = memIdx(a);
  if (i < 0) {
    Obj *o = constObj(a);
    if (!o || !o->writable) return nullptr;
    Obj *n = new Obj(*o);
    n->rc = 0;
    auto &m = S->mem;
    auto pos = std::lower_bound(m.begin(), m.end(), n->base, [](auto &x, u64 v) { return x.first < v; });
    m.insert(pos, {n->base, OP(n)});
    return n;
  }
  OP &p = S->mem[i].second;
  if (p.p->rc > 1) { Obj *n = new Obj(*p.p); n->rc = 0; p = OP(n); }
  return p.p;
}
static u64 allocObj(u64 size, u64 al, bool heap) {
  if (al < 16) al = 16;
  u64 a = (S->next + al - 1) / al * al;
  S->next = a + size + 32;
  Obj *o = new Obj;
  o->base = a;
  o->size = size;
  o->heap = heap;
  o->b.assign(size, 0xAA);
  S->mem.push_back({a, OP(o)});
  return a;
}
static void freeObj(u64 a) {
  int i = memIdx(a);
  if (i < 0 || S->mem[i].first != a) { violation("memory", "free of an invalid pointer", S->model); }
  S->mem.erase(S->mem.begin() + i);
}

static E cellE(Obj *o, u64 i) {
  if (!o->s.empty() && o->s[i]) return quick(o->s[i]);
  return K(o->b[i], 8);
}
static inline bool symRange(Obj *o, u64 off, u64 n) {
  if (o->s.empty()) return false;
  for (u64 i = 0; i < n; i++) if (o->s[off + i]) return true;
  return false;
}
static void setCell(Obj *o, u64 i, E e) {
  if (isC(e)) { o->b[i] = (uint8_t)e->c; if (!o->s.empty()) o->s[i] = nullptr; }
  else { if (o->s.empty()) o->s.assign(o->size, nullptr); o->s[i] = e; }
}
static Val loadAt(Obj *o, u64 off, u64 n, unsigned w) {
  if (!symRange(o, off, n)) {
    if (n <= 8) {
      u64 v = 0;
      memcpy(&v, o->b.data() + off, n);
      if (w < 64) v &= (1ull << w) - 1;
      return cv(v);
    }
    u128 v = 0;
    memcpy(&v, o->b.data() + off, n);
    return ev(K(v, w));
  }
  E e = cellE(o, off);
  for (u64 i = 1; i < n; i++) e = mkConcat(cellE(o, off + i), e);
  if (w < e->w) e = mkExtract(e, 0, w);
  return ev(e);
}
static void storeAt(Obj *o, u64 off, u64 n, const Val &v, unsigned w) {
  if (v.conc() && n <= 8) {
    memcpy(o->b.data() + off, &v.v, n);
    if (!o->s.empty()) for (u64 i = 0; i < n; i++) o->s[off + i] = nullptr;
    return;
  }
  E e = toE(v, w);
  if (w < n * 8) e = mkZext(e, n * 8);
  for (u64 i = 0; i < n; i++) setCell(o, off + i, quick(mkExtract(e, 8 * i, 8)));
}
[[noreturn]] static void memErr(u64 a, u64 n, const char *what) {
  char b[160];
  snprintf(b, sizeof b, "%s of %llu bytes at invalid address 0x%llx%s", what, (unsigned long long)n, (unsigned long long)a, a < 4096 ? " (null)" : "");
  violation("memory", b, S->model);
  throw StopAll();
}
// resolve an address for an access of n bytes: concrete offset or a symbolic one
struct Ref { Obj *o; u64 off; E sym; };
static Ref resolve(const Val &a, u64 n, bool wr) {
  Ref r{nullptr, 0, nullptr};
  u64 c;
  E e = nullptr;
  if (a.conc()) c = a.v;
  else {
    e = subst(a.e());
    if (isC(e)) { c = (u64)e->c; e = nullptr; }
    else c = (u64)evalS(e);
  }
  Obj *o = findObj(c);
  if (!o || c - o->base + n > o->size) memErr(c, n, wr ? "write" : "read");
  if (e) {
    E off = mkSub(e, K(o->base, 64));
    E in = mkUle(off, K(o->size - n, 64));
    if (!decide(in)) { // only reached when the model disagrees, which cannot happen
      engineStop("internal: address model");
    }
    off = subst(off);
    if (isC(off)) c = o->base + (u64)off->c;
    else r.sym = off;
  }
  if (wr) {
    o = writableObj(o->base);
    if (!o) memErr(c, n, "write to constant memory");
  }
  r.o = o;
  r.off = c - o->base;
  return r;
}
static std::vector<unsigned> offBits(E off, u64 maxOff) {
  u128 km = knownZeroMask(off);
  std::vector<unsigned> bits;
  for (unsigned i = 0; i < 64; i++) if (!((km >> i) & 1) && (i < 63) && (1ull << i) <= maxOff) bits.push_back(i);
  return bits;
}
// shrink the possible maximum of an offset with the solver
static u64 upperBound(E off, u64 maxOff) {
  if (maxOff < 64) return maxOff;
  u64 cur = (u64)evalS(off);
  u64 lim = 64;
  while (lim < maxOff) {
    if (cur < lim && solve(S, mkNot(mkUlt(off, K(lim, 64))), nullptr) == 0) return lim - 1;
    lim *= 2;
  }
  return maxOff;
}
static E muxBuild(Obj *o, E off, const std::vector<unsigned> &bits, int bi, u64 part, u64 maxOff, u64 n) {
  if (part > maxOff) return nullptr;
  if (bi < 0) {
    E e = cellE(o, part);
    for (u64 i = 1; i < n; i++) e = mkConcat(cellE(o, part + i), e);
    return e;
  }
  E lo = muxBuild(o, off, bits, bi - 1, part, maxOff, n);
  E hi = muxBuild(o, off, bits, bi - 1, part | (1ull << bits[bi]), maxOff, n);
  if (!hi) return lo;
  if (!lo || lo == hi) return hi;
  return mkIte(mkExtract(off, bits[bi], 1), hi, lo);
}
static Val doLoad(const Val &a, Type *t);
static Val doLoad(const Val &a, Type *t) {
  if (!t->scalar()) {
    if (t->k == Type::Vec || t->k == Type::Arr) {
      u64 st = t->k == Type::Vec ? t->el->sz : (t->el->sz + t->el->al - 1) / t->el->al * t->el->al;
      Agg *g = newAgg(t->n);
      for (u64 i = 0; i < t->n; i++) g->f[i] = doLoad(a.conc() ? cv(a.v + i * st) : ev(mkAdd(a.e(), K(i * st, 64))), t->el);
      return av(g);
    }
    if (t->k == Type::Struct) {
      Agg *g = newAgg(t->f.size());
      for (u64 i = 0; i < t->f.size(); i++) g->f[i] = doLoad(a.conc() ? cv(a.v + t->offs[i]) : ev(mkAdd(a.e(), K(t->offs[i], 64))), t->f[i]);
      return av(g);
    }
    if (t->k == Type::Float) { Type ti{Type::Int}; ti.w = t->w; ti.sz = t->sz; return doLoad(a, &ti); }
    engineStop("load type");
  }
  u64 n = t->sz;
  Ref r = resolve(a, n, false);
  if (!r.sym) return loadAt(r.o, r.off, n, t->w);
  u64 mx = upperBound(r.sym, r.o->size - n);
  auto bits = offBits(r.sym, mx);
  if (bits.size() > oMuxBits) {
    u64 off = concretize(r.sym);
    return loadAt(r.o, off, n, t->w);
  }
  E e = muxBuild(r.o, r.sym, bits, (int)bits.size() - 1, 0, mx, n);
  if (t->w < e->w) e = mkExtract(e, 0, t->w);
  return ev(e);
}
static void doStore(const Val &a, const Val &v, Type *t) {
  if (!t->scalar()) {
    if (t->k == Type::Vec || t->k == Type::Arr) {
      u64 st = t->k == Type::Vec ? t->el->sz : (t->el->sz + t->el->al - 1) / t->el->al * t->el->al;
      for (u64 i = 0; i < t->n; i++) doStore(a.conc() ? cv(a.v + i * st) : ev(mkAdd(a.e(), K(i * st, 64))), v.agg()->f[i], t->el);
      return;
    }
    if (t->k == Type::Struct) {
      for (u64 i = 0; i < t->f.size(); i++) doStore(a.conc() ? cv(a.v + t->offs[i]) : ev(mkAdd(a.e(), K(t->offs[i], 64))), v.agg()->f[i], t->f[i]);
      return;
    }
    if (t->k == Type::Float) { Type ti{Type::Int}; ti.w = t->w; ti.sz = t->sz; return doStore(a, v, &ti); }
    engineStop("store type");
  }
  u64 n = t->sz;
  Ref r = resolve(a, n, true);
  if (!r.sym) { storeAt(r.o, r.off, n, v, t->w); return; }
  u64 mx = upperBound(r.sym, r.o->size - n);
  auto bits = offBits(r.sym, mx);
  if ((1ull << bits.size()) > oStoreCand) {
    u64 off = concretize(r.sym);
    // the object may have been shared by the fork
    Obj *o = writableObj(r.o->base);
    storeAt(o, off, n, v, t->w);
    return;
  }
  E e = toE(v, t->w);
  if (t->w < n * 8) e = mkZext(e, n * 8);
  for (u64 m = 0; m < (1ull << bits.size()); m++) {
    u64 off = 0;
    for (size_t i = 0; i < bits.size(); i++) if (m >> i & 1) off |= 1ull << bits[i];
    if (off > mx) continue;
    E c = mkEq(r.sym, K(off, 64));
    if (isC(c, 0)) continue;
    for (u64 i = 0; i < n; i++) setCell(r.o, off + i, mkIte(c, mkExtract(e, 8 * i, 8), cellE(r.o, off + i)));
  }
}
static u64 concPtr(const Val &a) { return a.conc() ? a.v : concretize(a.e()); }
static u64 conc(const Val &a) { return a.conc() ? a.v : concretize(a.e()); }

static void doMemcpy(u64 d, u64 s, u64 n) {
  if (!n) return;
  Obj *so = findObj(s);
  if (!so || s - so->base + n > so->size) memErr(s, n, "read (memcpy)");
  OP keep(so); // the source may be the destination
  Obj *dO = findObj(d);
  if (!dO || d - dO->base + n > dO->size) memErr(d, n, "write (memcpy)");
  u64 so0 = s - so->base;
  // copy out first (overlap, copy-on-write)
  std::vector<uint8_t> tb(so->b.begin() + so0, so->b.begin() + so0 + n);
  std::vector<E> ts;
  if (symRange(so, so0, n)) ts.assign(so->s.begin() + so0, so->s.begin() + so0 + n);
  keep = OP();
  dO = writableObj(dO->base);
  if (!dO) memErr(d, n, "write to constant memory");
  u64 o = d - dO->base;
  memcpy(dO->b.data() + o, tb.data(), n);
  if (!ts.empty()) {
    if (dO->s.empty()) dO->s.assign(dO->size, nullptr);
    std::copy(ts.begin(), ts.end(), dO->s.begin() + o);
  } else if (!dO->s.empty()) std::fill(dO->s.begin() + o, dO->s.begin() + o + n, nullptr);
}

// ---------------------------------------------------------------- values
static inline Val get(const Opd &o) { return o.reg >= 0 ? top()->r[o.reg] : o.c; }
static inline Val getq(const Opd &o) {
  Val v = get(o);
  if (v.sym()) return ev(quick(v.e()));
  return v;
}
static inline u64 mask(u64 v, unsigned w) { return w >= 64 ? v : v & ((1ull << w) - 1); }
static inline int64_t sext64(u64 v, unsigned w) { return (int64_t)sx(v, w); }

static E expBin(IOp op, E a, E b) {
  switch (op) {
  case I_ADD: return mkAdd(a, b); case I_SUB: return mkSub(a, b); case I_MUL: return mkMul(a, b);
  case I_UDIV: return mkDiv(UDIV, a, b); case I_SDIV: return mkDiv(SDIV, a, b); case I_UREM: return mkDiv(UREM, a, b); case I_SREM: return mkDiv(SREM, a, b);
  case I_AND: return mkAnd(a, b); case I_OR: return mkOr(a, b); case I_XOR: return mkXor(a, b);
  case I_SHL: return mkShl(a, b); case I_LSHR: return mkLshr(a, b); case I_ASHR: return mkAshr(a, b);
  default: fatal("expBin");
  }
}
static bool concBin(IOp op, u64 a, u64 b, unsigned w, u64 &r) {
  switch (op) {
  case I_ADD: r = a + b; break;
  case I_SUB: r = a - b; break;
  case I_MUL: r = a * b; break;
  case I_UDIV: if (!b) return false; r = a / b; break;
  case I_UREM: if (!b) return false; r = a % b; break;
  case I_SDIV: { int64_t x = sext64(a, w), y = sext64(b, w); if (!y) return false; r = y == -1 ? -(u64)x : (u64)(x / y); break; }
  case I_SREM: { int64_t x = sext64(a, w), y = sext64(b, w); if (!y) return false; r = y == -1 ? 0 : (u64)(x % y); break; }
  case I_AND: r = a & b; break;
  case I_OR: r = a | b; break;
  case I_XOR: r = a ^ b; break;
  case I_SHL: r = b >= w ? 0 : a << b; break;
  case I_LSHR: r = b >= w ? 0 : a >> b; break;
  case I_ASHR: r = (u64)(sext64(a, w) >> (b >= w ? w - 1 : b)); break;
  default: return false;
  }
  r = mask(r, w);
  return true;
}
static Val bin(IOp op, const Val &a, const Val &b, Type *t) {
  if (t->k == Type::Vec) {
    Agg *g = newAgg(t->n);
    for (u64 i = 0; i < t->n; i++) g->f[i] = bin(op, a.agg()->f[i], b.agg()->f[i], t->el);
    return av(g);
  }
  if (t->k == Type::Float) engineStop("floating point");
  u64 r;
  if (a.conc() && b.conc() && t->w <= 64 && concBin(op, a.v, b.v, t->w, r)) return cv(r);
  return ev(expBin(op, toE(a, t->w), toE(b, t->w)));
}
static E expCmp(uint8_t p, E a, E b) {
  switch (p) {
  case P_EQ: return mkEq(a, b); case P_NE: return mkNot(mkEq(a, b));
  case P_ULT: return mkUlt(a, b); case P_ULE: return mkUle(a, b); case P_UGT: return mkUlt(b, a); case P_UGE: return mkUle(b, a);
  case P_SLT: return mkSlt(a, b); case P_SLE: return mkSle(a, b); case P_SGT: return mkSlt(b, a); default: return mkSle(b, a);
  }
}
static Val icmp(uint8_t p, const Val &a, const Val &b, Type *t) {
  if (t->k == Type::Vec) {
    Agg *g = newAgg(t->n);
    for (u64 i = 0; i < t->n; i++) g->f[i] = icmp(p, a.agg()->f[i], b.agg()->f[i], t->el);
    return av(g);
  }
  unsigned w = t->w;
  if (a.conc() && b.conc() && w <= 64) {
    u64 x = a.v, y = b.v;
    int64_t sx_ = sext64(x, w), sy = sext64(y, w);
    bool r;
    switch (p) {
    case P_EQ: r = x == y; break; case P_NE: r = x != y; break; case P_ULT: r = x < y; break; case P_ULE: r = x <= y; break;
    case P_UGT: r = x > y; break; case P_UGE: r = x >= y; break; case P_SLT: r = sx_ < sy; break; case P_SLE: r = sx_ <= sy; break;
    case P_SGT: r = sx_ > sy; break; default: r = sx_ >= sy; break;
    }
    return cv(r);
  }
  return ev(expCmp(p, toE(a, w), toE(b, w)));
}
static Val bitcastV(const Val &v, Type *f, Type *t) {
  if (f->k != Type::Vec && t->k != Type::Vec) return v;
  E e;
  if (f->k == Type::Vec) {
    e = toE(v.agg()->f[0], f->el->w);
    for (u64 i = 1; i < f->n; i++) e = mkConcat(toE(v.agg()->f[i], f->el->w), e);
  } else e = toE(v, f->w);
  if (t->k != Type::Vec) return ev(e);
  Agg *g = newAgg(t->n);
  for (u64 i = 0; i < t->n; i++) g->f[i] = ev(mkExtract(e, i * t->el->w, t->el->w));
  return av(g);
}
static Val castV(IOp op, const Val &a, Type *f, Type *t) {
  if (f->k == Type::Vec) {
    Agg *g = newAgg(t->n);
    for (u64 i = 0; i < t->n; i++) g->f[i] = castV(op, a.agg()->f[i], f->el, t->el);
    return av(g);
  }
  unsigned fw = f->w, tw = t->w;
  if (a.conc() && tw <= 64 && fw <= 64) return cv(op == I_SEXT ? mask((u64)sext64(a.v, fw), tw) : mask(a.v, tw));
  E e = toE(a, fw);
  if (op == I_SEXT) return ev(mkSext(e, tw));
  if (tw < fw) return ev(mkExtract(e, 0, tw));
  return ev(mkZext(e, tw));
}

static bool ptrLike(const Val &a) { return a.conc() && a.v >= 0x10000000; }

// ---------------------------------------------------------------- intrinsics
static void ret(const Ins &I, const Val &v) { if (I.dst >= 0) top()->r[I.dst] = v; }

static E bswapE(E e) {
  unsigned n = e->w / 8;
  E r = mkExtract(e, 0, 8);
  for (unsigned i = 1; i < n; i++) r = mkConcat(r, mkExtract(e, 8 * i, 8));
  return r;
}
static E ovf(Intr k, E a, E b, E &res) {
  unsigned w = a->w;
  switch (k) {
  case N_UADDO: res = mkAdd(a, b); return mkUlt(res, a);
  case N_USUBO: res = mkSub(a, b); return mkUlt(a, b);
  case N_UMULO: {
    res = mkMul(a, b);
    if (2 * w <= 128) { E p = mkMul(mkZext(a, 2 * w), mkZext(b, 2 * w)); return mkNot(mkEq(mkExtract(p, w, w), K(0, w))); }
    engineStop("umulo width");
    return nullptr;
  }
  default: {
    if (w > 64) engineStop("overflow width");
    unsigned W = k == N_SMULO ? 2 * w : w + 1;
    E x = mkSext(a, W), y = mkSext(b, W);
    E p = k == N_SADDO ? mkAdd(x, y) : k == N_SSUBO ? mkSub(x, y) : mkMul(x, y);
    res = mkExtract(p, 0, w);
    return mkNot(mkEq(mkSext(res, W), p));
  }
  }
}
static Val scalarIntr(const Ins &I, Intr k, const Val *a, Type *t) {
  unsigned w = t->w;
  if (t->k == Type::Vec) {
    Agg *g = newAgg(t->n);
    for (u64 i = 0; i < t->n; i++) {
      Val b[3];
      for (size_t j = 0; j < I.o.size() && j < 3; j++) b[j] = a[j].isAgg() ? a[j].agg()->f[i] : a[j];
      g->f[i] = scalarIntr(I, k, b, t->el);
    }
    return av(g);
  }
  E x = toE(a[0], w);
  switch (k) {
  case N_UMIN: { E y = toE(a[1], w); return ev(mkIte(mkUlt(y, x), y, x)); }
  case N_UMAX: { E y = toE(a[1], w); return ev(mkIte(mkUlt(x, y), y, x)); }
  case N_SMIN: { E y = toE(a[1], w); return ev(mkIte(mkSlt(y, x), y, x)); }
  case N_SMAX: { E y = toE(a[1], w); return ev(mkIte(mkSlt(x, y), y, x)); }
  case N_UADDSAT: { E y = toE(a[1], w), r = mkAdd(x, y); return ev(mkIte(mkUlt(r, x), K(~(u128)0, w), r)); }
  case N_USUBSAT: { E y = toE(a[1], w); return ev(mkIte(mkUlt(x, y), K(0, w), mkSub(x, y))); }
  case N_SADDSAT: case N_SSUBSAT: {
    E y = toE(a[1], w), r, o = ovf(k == N_SADDSAT ? N_SADDO : N_SSUBO, x, y, r);
    E neg = mkSlt(x, K(0, w));
    return ev(mkIte(o, mkIte(neg, K((u128)1 << (w - 1), w), K(maskw(w - 1), w)), r));
  }
  case N_CTPOP: { E r = K(0, w); for (unsigned i = 0; i < w; i++) r = mkAdd(r, mkZext(mkExtract(x, i, 1), w)); return ev(r); }
  case N_CTLZ: { E r = K(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkEq(mkExtract(x, i, 1), K(1, 1)), K(w - 1 - i, w), r); return ev(r); }
  case N_CTTZ: { E r = K(w, w); for (int i = (int)w - 1; i >= 0; i--) r = mkIte(mkEq(mkExtract(x, i, 1), K(1, 1)), K(i, w), r); return ev(r); }
  case N_BSWAP: return ev(bswapE(x));
  case N_BITREV: { E r = mkExtract(x, 0, 1); for (unsigned i = 1; i < w; i++) r = mkConcat(r, mkExtract(x, i, 1)); return ev(r); }
  case N_ABS: return ev(mkIte(mkSlt(x, K(0, w)), mkSub(K(0, w), x), x));
  case N_FSHL: case N_FSHR: {
    E y = toE(a[1], w), z = toE(a[2], w);
    E s = mkDiv(UREM, z, K(w, w));
    E inv = mkSub(K(w, w), s);
    E r;
    if (k == N_FSHL) r = mkIte(mkEq(s, K(0, w)), x, mkOr(mkShl(x, s), mkLshr(y, inv)));
    else r = mkIte(mkEq(s, K(0, w)), y, mkOr(mkShl(x, inv), mkLshr(y, s)));
    return ev(r);
  }
  case N_UCMP: case N_SCMP: {
    E y = toE(a[1], w);
    unsigned rw = I.rt->w;
    E lt = k == N_UCMP ? mkUlt(x, y) : mkSlt(x, y);
    return ev(mkIte(lt, K(~(u128)0, rw), mkIte(mkEq(x, y), K(0, rw), K(1, rw))));
  }
  default: fatal("scalarIntr");
  }
}

static void assertThat(const Val &c, u64 id) {
  nAsserts++;
  std::string msg = "assertion failed";
  if (id) msg += " #" + std::to_string(id);
  if (c.conc()) { if (!(c.v & 1)) violation("assert", msg, S->model); return; }
  nSymAsserts++;
  E e = subst(c.e());
  if (isC(e)) { if (!e->c) violation("assert", msg, S->model); return; }
  if (!evalS(e)) violation("assert", msg, S->model);
  std::vector<uint8_t> m = S->model;
  int r = solve(S, mkNot(e), &m);
  if (r == 1) violation("assert", msg, m);
  if (r < 0) { if (incomplete.size() < 20) incomplete.push_back("solver gave no answer on an assertion\n" + backtrace()); addC(S, e); return; }
  learn(S, e, true);
}
static u64 nRawEq;
static void assertEq(const Val &a, const Val &b, unsigned w, u64 id) {
  if (a.conc() && b.conc()) { assertThat(cv(a.v == b.v), id); return; }
  E x = toE(a, w), y = toE(b, w);
  E c = mkEq(x, y);
  if (isC(c, 1)) {
    // equal by rewriting; let the solver confirm the first ones of every run on the unsimplified formula
    nAsserts++;
    nSymAsserts++;
    if (nRawEq++ < 200) {
      E q = raw(NOT, 1, 0, raw(EQ, 1, 0, x, y));
      if (solve(S, q, nullptr) != 0) fatal("the simplifier and the solver disagree");
    }
    return;
  }
  assertThat(ev(c), id);
}
static std::string readStr(u64 p, u64 n) {
  Obj *o = findObj(p);
  std::string r;
  if (!o || p - o->base + n > o->size || n > 4096) return r;
  for (u64 i = 0; i < n; i++) r += (char)o->b[p - o->base + i];
  return r;
}
static u64 readU(u64 p, unsigned n) {
  Obj *o = findObj(p);
  if (!o || p - o->base + n > o->size) return 0;
  u64 v = 0;
  memcpy(&v, o->b.data() + (p - o->base), n);
  return v;
}
static std::string panicLoc(const Ins &I) {
  for (int i = (int)I.o.size() - 1; i >= 0; i--) {
    Val v = get(I.o[i]);
    if (!v.conc()) continue;
    Global *g = M.globalAt(v.v);
    if (g && g->addr == v.v && g->size == 24 && g->constant) {
      u64 f = readU(v.v, 8), n = readU(v.v + 8, 8);
      std::string s = readStr(f, n);
      if (!s.empty()) return s + ":" + std::to_string(readU(v.v + 16, 4)) + ":" + std::to_string(readU(v.v + 20, 4));
    }
  }
  return "?";
}

// expand a template made of literals and plain `{}` of concrete unsigned integers
static bool formatInts(const Val &tp, const Val &ap, std::string &out) {
  if (tp.sym() || ap.sym()) return false;
  Obj *o = findObj(tp.v);
  if (!o) return false;
  u64 i = tp.v - o->base, n = 0;
  Type t{Type::Int}; t.w = 64; t.sz = 8;
  while (i < o->size) {
    E c = cellE(o, i++);
    if (!isC(c)) return false;
    u64 b = c->c;
    if (!b) return n > 0 && !out.empty();
    if (b < 0x80) {
      if (i + b > o->size) return false;
      for (u64 k = 0; k < b; k++) { E d = cellE(o, i + k); if (!isC(d)) return false; out += (char)d->c; }
      i += b;
      continue;
    }
    if (b != 0xc0) return false;
    Obj *a = findObj(ap.v);
    if (!a || ap.v - a->base + 16 * (n + 1) > a->size) return false;
    Val vp = doLoad(cv(ap.v + 16 * n), &t), fp = doLoad(cv(ap.v + 16 * n + 8), &t);
    if (vp.sym() || fp.sym()) return false;
    auto it = M.faddr.find(fp.v);
    if (it == M.faddr.end()) return false;
    const std::string &nm = it->second->name;
    size_t q = nm.find("4core3fmt3num3imp");
    if (q == std::string::npos || nm.find("7Display3fmt") == std::string::npos) return false;
    char ty = nm[q + 17];
    u64 sz = ty == 'y' || ty == 'j' ? 8 : ty == 'm' ? 4 : ty == 't' ? 2 : 0;
    Obj *x = findObj(vp.v);
    if (!sz || !x || vp.v - x->base + sz > x->size) return false;
    Type ti{Type::Int}; ti.w = sz * 8; ti.sz = sz;
    Val v = doLoad(vp, &ti);
    if (v.sym()) return false;
    out += std::to_string(v.v);
    n++;
  }
  return false;
}
// returns false when a call frame was pushed (not for intrinsics)
static void intrinsic(const Ins &I) {
  auto A = [&](int i) { return getq(I.o[i]); };
  switch (I.intr) {
  case N_NOP: case N_ASSUME: return;
  case N_EXPECT: case N_TLADDR: ret(I, A(0)); return;
  case N_MEMCPY: {
    u64 n = conc(A(2)); // may fork
    if (!n) { ret(I, A(0)); return; }
    u64 d = concPtr(A(0)), s = concPtr(A(1));
    doMemcpy(d, s, n);
    ret(I, cv(d));
    return;
  }
  case N_MEMSET: {
    u64 n = conc(A(2));
    if (!n) { ret(I, A(0)); return; }
    u64 d = concPtr(A(0));
    Obj *o = findObj(d);
    if (!o || d - o->base + n > o->size) memErr(d, n, "write (memset)");
    o = writableObj(o->base);
    if (!o) memErr(d, n, "write to constant memory");
    u64 f = d - o->base;
    Val v = A(1);
    if (v.conc()) {
      memset(o->b.data() + f, (int)v.v, n);
      if (!o->s.empty()) std::fill(o->s.begin() + f, o->s.begin() + f + n, nullptr);
    } else { E e = mkExtract(v.e(), 0, 8); for (u64 i = 0; i < n; i++) setCell(o, f + i, e); }
    ret(I, cv(d));
    return;
  }
  case N_UADDO: case N_USUBO: case N_UMULO: case N_SADDO: case N_SSUBO: case N_SMULO: {
    unsigned w = I.ot[0]->w;
    E r, o = ovf(I.intr, toE(A(0), w), toE(A(1), w), r);
    Agg *g = newAgg(2);
    g->f[0] = ev(r);
    g->f[1] = ev(o);
    ret(I, av(g));
    return;
  }
  case N_UADDSAT: case N_USUBSAT: case N_SADDSAT: case N_SSUBSAT: case N_UMIN: case N_UMAX: case N_SMIN: case N_SMAX: case N_CTPOP:
  case N_CTLZ: case N_CTTZ: case N_BSWAP: case N_BITREV: case N_FSHL: case N_FSHR: case N_ABS: case N_UCMP: case N_SCMP: {
    Val b[3];
    for (size_t i = 0; i < I.o.size() && i < 3; i++) b[i] = A(i);
    ret(I, scalarIntr(I, I.intr, b, I.ot[0]));
    return;
  }
  case N_REDUCE: {
    Val v = A(0);
    Type *t = I.ot[0];
    if (I.sub > 2) engineStop("vector reduce");
    E e = toE(v.agg()->f[0], t->el->w);
    for (u64 i = 1; i < t->n; i++) { E x = toE(v.agg()->f[i], t->el->w); e = I.sub == 0 ? mkOr(e, x) : I.sub == 1 ? mkAnd(e, x) : mkAdd(e, x); }
    ret(I, ev(e));
    return;
  }
  case N_ISCONST: ret(I, cv(0)); return;
  case N_PTRMASK: ret(I, bin(I_AND, A(0), A(1), I.rt)); return;
  case N_LOADREL: {
    u64 p = concPtr(A(0)), o = conc(A(1));
    Type t{Type::Int}; t.w = 32; t.sz = 4;
    Val v = doLoad(cv(p + o), &t);
    ret(I, cv(p + (u64)sext64(v.v, 32)));
    return;
  }
  case N_TRAP: violation("panic", "abort", S->model); return;
  case N_BCMP: case N_MEMCMP: {
    u64 n = conc(A(2));
    if (!n) { ret(I, cv(0)); return; }
    u64 a = concPtr(A(0)), b = concPtr(A(1));
    Obj *x = findObj(a), *y = findObj(b);
    if (!x || a - x->base + n > x->size) memErr(a, n, "read (memcmp)");
    if (!y || b - y->base + n > y->size) memErr(b, n, "read (memcmp)");
    u64 ao = a - x->base, bo = b - y->base;
    if (!symRange(x, ao, n) && !symRange(y, bo, n)) {
      int r = memcmp(x->b.data() + ao, y->b.data() + bo, n);
      ret(I, cv(mask((u64)(r < 0 ? -1 : r > 0 ? 1 : 0), 32)));
      return;
    }
    if (I.intr == N_BCMP) {
      E c = K(1, 1);
      for (u64 i = 0; i < n; i++) c = mkAnd(c, mkEq(cellE(x, ao + i), cellE(y, bo + i)));
      ret(I, ev(mkIte(c, K(0, 32), K(1, 32))));
    } else {
      E r = K(0, 32);
      for (u64 k = n; k-- > 0;) {
        E p = cellE(x, ao + k), q = cellE(y, bo + k);
        r = mkIte(mkEq(p, q), r, mkIte(mkUlt(p, q), K(0xffffffff, 32), K(1, 32)));
      }
      ret(I, ev(r));
    }
    return;
  }
  case N_RANDOM: { // the keys of std's hash tables: fixed
    u64 n = conc(A(1)), d = concPtr(A(0));
    Type t{Type::Int}; t.w = 8; t.sz = 1;
    for (u64 i = 0; i < n; i++) doStore(cv(d + i), cv(0), &t);
    ret(I, cv(n));
    return;
  }
  case N_STRLEN: {
    u64 p = concPtr(A(0));
    Obj *o = findObj(p);
    if (!o) memErr(p, 1, "strlen");
    u64 i = p - o->base;
    while (i < o->size) { E c = cellE(o, i); if (!isC(c)) engineStop("strlen of symbolic data"); if (!c->c) break; i++; }
    ret(I, cv(i - (p - o->base)));
    return;
  }
  case N_MALLOC: case N_CALLOC: case N_MEMALIGN: case N_REALLOC: {
    int si = I.intr == N_MALLOC ? 0 : I.intr == N_MEMALIGN ? 2 : 1;
    Val sz = A(si);
    if (sz.sym()) {
      E e = subst(sz.e());
      E big = mkUlt(K(oMaxAlloc, 64), e);
      if (!isC(big, 0)) {
        bool b = evalS(big);
        std::vector<uint8_t> m = S->model;
        if (b || solve(S, big, &m) == 1) violation("alloc", "allocation larger than the modelled memory from a small input", m);
      }
    }
    u64 n = conc(sz);
    if (I.intr == N_CALLOC) n *= conc(A(0));
    if (n > oMaxAlloc) violation("alloc", "allocation of " + std::to_string(n) + " bytes", S->model);
    u64 al = I.intr == N_MEMALIGN ? conc(A(1)) : 16;
    u64 p = allocObj(n, al, true);
    if (I.intr == N_CALLOC) std::fill(S->mem.back().second.p->b.begin(), S->mem.back().second.p->b.end(), 0);
    if (I.intr == N_MEMALIGN) {
      Type t{Type::Ptr}; t.w = 64; t.sz = 8;
      doStore(A(0), cv(p), &t);
      ret(I, cv(0));
      return;
    }
    if (I.intr == N_REALLOC) {
      u64 q = concPtr(A(0));
      if (q) {
        Obj *o = findObj(q);
        if (!o || o->base != q) memErr(q, 0, "realloc");
        doMemcpy(p, q, std::min(o->size, n));
        freeObj(q);
      }
    }
    ret(I, cv(p));
    return;
  }
  case N_FREE: { u64 p = concPtr(A(0)); if (p) freeObj(p); return; }
  case N_PANIC: {
    std::string n = I.fn->pretty.empty() ? I.fn->name : I.fn->pretty;
    violation("panic", n + " at " + panicLoc(I), S->model);
    return;
  }
  case N_OOM: violation("alloc", "allocation failure path: " + I.fn->name, S->model); return;
  case N_FORMAT: { // literal pieces and concrete integers are formatted, anything else (error messages) gives an empty string
    u64 p = concPtr(A(0));
    Type t{Type::Int}; t.w = 64; t.sz = 8;
    std::string out;
    if (formatInts(A(1), A(2), out)) {
      u64 q = allocObj(out.size(), 1, true);
      for (size_t k = 0; k < out.size(); k++) S->mem.back().second.p->b[k] = (uint8_t)out[k];
      doStore(cv(p), cv(out.size()), &t);
      doStore(cv(p + 8), cv(q), &t);
      doStore(cv(p + 16), cv(out.size()), &t);
      return;
    }
    doStore(cv(p), cv(0), &t);
    doStore(cv(p + 8), cv(1), &t);
    doStore(cv(p + 16), cv(0), &t);
    return;
  }
  case N_S_BYTES: {
    u64 p = concPtr(A(0)), n = conc(A(1));
    Obj *o = n ? findObj(p) : nullptr;
    if (n) {
      if (!o || p - o->base + n > o->size) memErr(p, n, "sym_bytes");
      o = writableObj(o->base);
    }
    for (u64 i = 0; i < n; i++) {
      u64 id = S->nvars++;
      if (concreteMode) setCell(o, p - o->base + i, K(id < concreteIn.size() ? concreteIn[id] : 0, 8));
      else setCell(o, p - o->base + i, mkVar(id));
    }
    if (S->model.size() < S->nvars) S->model.resize(S->nvars);
    return;
  }
  case N_S_ASSUME: {
    Val c = A(0);
    if (c.conc()) { if (!(c.v & 1)) { nKilled++; throw PathEnd(); } return; }
    E e = subst(c.e());
    if (isC(e)) { if (!e->c) { nKilled++; throw PathEnd(); } return; }
    if (!evalS(e)) {
      int r = solve(S, e, &S->model);
      if (r == 0) { nKilled++; throw PathEnd(); }
      if (r < 0) engineStop("solver gave no answer on an assumption");
      modelChanged();
    }
    addC(S, e);
    learn(S, c.e(), true);
    return;
  }
  case N_S_ASSERT: assertThat(A(0), I.o.size() > 1 ? A(1).v : 0); return;
  case N_S_ASSERTEQ: assertEq(A(0), A(1), I.ot[0]->w, A(2).v); return;
  case N_S_REACH: reached.insert(conc(A(0))); return;
  case N_S_CONC: { u64 v = conc(A(0)); ret(I, cv(v)); return; }
  case N_S_OBSERVE: S->obs.push_back({A(0), I.ot[0]->w}); return;
  default: engineStop("unsupported external or intrinsic: " + (I.callee ? *I.callee : "?"));
  }
}

// ---------------------------------------------------------------- control flow
static void enter(int bb) {
  Frame *f = top();
  Block &B = f->f->blocks[bb];
  int prev = f->bb;
  if (B.nphi) {
    Val tmp[64];
    std::vector<Val> big;
    Val *v = tmp;
    if (B.nphi > 64) { big.resize(B.nphi); v = big.data(); }
    for (int i = 0; i < B.nphi; i++) {
      Ins &P = B.ins[i];
      int k = -1;
      for (size_t j = 0; j < P.blk.size(); j++) if (P.blk[j] == prev) { k = j; break; }
      if (k < 0) fatal("phi");
      v[i] = get(P.o[k]);
    }
    for (int i = 0; i < B.nphi; i++) f->r[B.ins[i].dst] = v[i];
  }
  f->prev = prev;
  f->bb = bb;
  f->ip = B.nphi;
}

static bool pureIns(const Ins &I) {
  switch (I.op) {
  case I_ADD: case I_SUB: case I_MUL: case I_AND: case I_OR: case I_XOR: case I_SHL: case I_LSHR: case I_ASHR: case I_ICMP: case I_SELECT:
  case I_GEP: case I_ZEXT: case I_SEXT: case I_TRUNC: case I_CAST: case I_FREEZE: case I_EXTRACTV: case I_INSERTV: case I_NOP: case I_LOAD: return true;
  case I_CALL:
    switch (I.intr) {
    case N_NOP: case N_ASSUME: case N_EXPECT: case N_BSWAP: case N_UMIN: case N_UMAX: case N_SMIN: case N_SMAX: case N_USUBSAT: case N_UADDSAT:
    case N_FSHL: case N_FSHR: case N_ABS: case N_UADDO: case N_USUBO: case N_SADDO: case N_SSUBO: case N_UCMP: case N_SCMP: case N_CTTZ: case N_CTLZ: case N_CTPOP: return true;
    default: return false;
    }
  default: return false;
  }
}
static bool simpleBlock(Block &B) {
  if (B.simple) return B.simple == 1;
  B.simple = 2;
  if (B.nphi || B.ins.size() > 24 || B.ins.empty() || B.ins.back().op != I_BR) return false;
  for (size_t i = 0; i + 1 < B.ins.size(); i++) if (!pureIns(B.ins[i])) return false;
  B.simple = 1;
  return true;
}
static void simpleIns(const Ins &I);
struct Bail {};
static bool specBlock(Func *fn, int b) {
  Block &B = fn->blocks[b];
  for (size_t i = 0; i + 1 < B.ins.size(); i++) {
    const Ins &I = B.ins[i];
    if (I.op == I_LOAD) {
      Val a = getq(I.o[0]);
      if (!a.conc() || !I.t->scalar()) return false;
      Obj *o = findObj(a.v);
      if (!o || a.v - o->base + I.t->sz > o->size) return false;
      top()->r[I.dst] = loadAt(o, a.v - o->base, I.t->sz, I.t->w);
      continue;
    }
    if (I.op == I_SELECT) {
      Val c = getq(I.o[0]);
      if (!c.conc() && I.t->k == Type::Ptr) return false;
    }
    simpleIns(I);
  }
  return true;
}
// try to turn a small diamond into if-then-else expressions
static bool tryMerge(Frame *f, E c, int tb, int fb) {
  Func *fn = f->f;
  Block &T = fn->blocks[tb], &F = fn->blocks[fb];
  int j;
  int pt = f->bb, pf = f->bb;
  bool st = false, sf = false;
  if (simpleBlock(T) && T.ins.back().blk[0] == fb) { j = fb; pt = tb; st = true; }
  else if (simpleBlock(F) && F.ins.back().blk[0] == tb) { j = tb; pf = fb; sf = true; }
  else if (simpleBlock(T) && simpleBlock(F) && T.ins.back().blk[0] == F.ins.back().blk[0]) { j = T.ins.back().blk[0]; pt = tb; pf = fb; st = sf = true; }
  else return false;
  if (j == f->bb) return false;
  Block &J = fn->blocks[j];
  for (int i = 0; i < J.nphi; i++) if (!J.ins[i].t->scalar()) return false;
  u64 saveI = nInstr;
  if (st && !specBlock(fn, tb)) { nInstr = saveI; return false; }
  if (sf && !specBlock(fn, fb)) { nInstr = saveI; return false; }
  std::vector<Val> v(J.nphi);
  for (int i = 0; i < J.nphi; i++) {
    Ins &P = J.ins[i];
    Val a, b;
    bool fa = false, fb2 = false;
    for (size_t k = 0; k < P.blk.size(); k++) {
      if (P.blk[k] == pt && !fa) { a = get(P.o[k]); fa = true; }
      if (P.blk[k] == pf && !fb2) { b = get(P.o[k]); fb2 = true; }
    }
    if (!fa || !fb2) fatal("merge phi");
    if (a.conc() && b.conc()) {
      if (a.v == b.v) { v[i] = a; continue; }
      // keep control-relevant constants apart: pointers and discriminant-like values
      if (P.t->k == Type::Ptr || ptrLike(a) || ptrLike(b) || P.t->w != 1) return false;
    }
    if (P.t->k == Type::Ptr) return false;
    v[i] = ev(mkIte(c, toE(a, P.t->w), toE(b, P.t->w)));
  }
  for (int i = 0; i < J.nphi; i++) f->r[J.ins[i].dst] = v[i];
  f->prev = pf;
  f->bb = j;
  f->ip = J.nphi;
  nMerges++;
  return true;
}

static void pushFrame(Func *fn, const std::vector<Val> &args, int dst, int blk) {
  M.parse(fn);
  fn->calls++;
  if (S->st.size() > 4000) violation("hang", "call depth above 4000 (stack overflow)", S->model);
  Frame *n = new Frame;
  n->f = fn;
  n->r.resize(fn->nregs);
  for (size_t i = 0; i < args.size() && i < fn->args.size(); i++) n->r[fn->args[i]] = args[i];
  n->retDst = dst;
  n->retBlk = blk;
  n->bb = 0;
  n->ip = 0;
  S->st.push_back(FP(n));
}

static void simpleIns(const Ins &I) {
  Frame *f = top();
  switch (I.op) {
  case I_ADD: case I_SUB: case I_MUL: case I_UDIV: case I_SDIV: case I_UREM: case I_SREM: case I_AND: case I_OR: case I_XOR: case I_SHL: case I_LSHR: case I_ASHR:
    f->r[I.dst] = bin(I.op, getq(I.o[0]), getq(I.o[1]), I.t);
    return;
  case I_ICMP: f->r[I.dst] = icmp(I.sub, getq(I.o[0]), getq(I.o[1]), I.t); return;
  case I_SELECT: {
    Val c = getq(I.o[0]);
    if (c.isAgg()) {
      Val a = get(I.o[1]), b = get(I.o[2]);
      Agg *g = newAgg(I.t->n);
      for (u64 i = 0; i < I.t->n; i++) g->f[i] = ev(mkIte(toE(c.agg()->f[i], 1), toE(a.agg()->f[i], I.t->el->w), toE(b.agg()->f[i], I.t->el->w)));
      f->r[I.dst] = av(g);
      return;
    }
    if (c.conc()) { f->r[I.dst] = get(I.o[(c.v & 1) ? 1 : 2]); return; }
    Val a = getq(I.o[1]), b = getq(I.o[2]);
    if (a.isAgg() || b.isAgg() || I.t->k == Type::Ptr) {
      if (I.t->k == Type::Ptr && a.conc() && b.conc() && a.v == b.v) { f->r[I.dst] = a; return; }
      bool v = decide(c.e());
      f = top();
      f->r[I.dst] = v ? a : b;
      return;
    }
    f->r[I.dst] = ev(mkIte(c.e(), toE(a, I.t->w), toE(b, I.t->w)));
    return;
  }
  case I_GEP: {
    Val b = getq(I.o[0]);
    u64 off = I.imm[0];
    if (I.o.size() == 1) { f->r[I.dst] = b.conc() ? cv(b.v + off) : ev(mkAdd(b.e(), K(off, 64))); return; }
    E se = nullptr;
    for (size_t i = 1; i < I.o.size(); i++) {
      Val x = getq(I.o[i]);
      unsigned w = I.ot[i - 1]->w;
      if (x.conc()) off += (u64)(sext64(x.v, w) * (int64_t)I.imm[i]);
      else {
        E e = mkMul(mkSext(x.e(), 64), K(I.imm[i], 64));
        se = se ? mkAdd(se, e) : e;
      }
    }
    if (!se && b.conc()) { f->r[I.dst] = cv(b.v + off); return; }
    E base = mkAdd(toE(b, 64), K(off, 64));
    f->r[I.dst] = ev(se ? mkAdd(se, base) : base);
    return;
  }
  case I_ZEXT: case I_SEXT: case I_TRUNC: case I_CAST: f->r[I.dst] = castV(I.op, getq(I.o[0]), I.t, I.rt); return;
  case I_BITCAST: f->r[I.dst] = bitcastV(get(I.o[0]), I.t, I.rt); return;
  case I_FREEZE: f->r[I.dst] = get(I.o[0]); return;
  case I_EXTRACTV: {
    Val v = get(I.o[0]);
    for (u64 i : I.imm) v = v.agg()->f[i];
    f->r[I.dst] = v;
    return;
  }
  case I_INSERTV: {
    std::function<Val(const Val &, size_t)> ins;
    Val x = get(I.o[1]);
    Val a = get(I.o[0]);
    if (I.imm.size() == 1) {
      Agg *g = newAgg(0);
      g->f = a.agg()->f;
      g->f[I.imm[0]] = x;
      f->r[I.dst] = av(g);
      return;
    }
    std::vector<Agg *> chain;
    Val cur = a;
    Agg *root = nullptr, *last = nullptr;
    for (size_t i = 0; i < I.imm.size(); i++) {
      Agg *g = newAgg(0);
      g->f = cur.agg()->f;
      if (last) last->f[I.imm[i - 1]] = av(g);
      else root = g;
      last = g;
      cur = g->f[I.imm[i]];
    }
    last->f[I.imm.back()] = x;
    f->r[I.dst] = av(root);
    return;
  }
  case I_EXTRACTE: { u64 i = conc(getq(I.o[1])); top()->r[I.dst] = get(I.o[0]).agg()->f[i]; return; }
  case I_INSERTE: {
    u64 i = conc(getq(I.o[2]));
    Agg *g = newAgg(0);
    g->f = get(I.o[0]).agg()->f;
    g->f[i] = get(I.o[1]);
    top()->r[I.dst] = av(g);
    return;
  }
  case I_SHUF: {
    Val a = get(I.o[0]), b = get(I.o[1]), m = get(I.o[2]);
    u64 n = I.imm[0];
    Agg *g = newAgg(n);
    for (u64 i = 0; i < n; i++) { u64 k = m.agg()->f[i].v & 0xffffffff; g->f[i] = k < I.t->n ? a.agg()->f[k] : k < 2 * I.t->n ? b.agg()->f[k - I.t->n] : cv(0); }
    f->r[I.dst] = av(g);
    return;
  }
  case I_NOP: return;
  case I_CALL: intrinsic(I); return;
  default: fatal("simpleIns");
  }
}

static void endPath() {
  nPaths++;
  if (samples.size() < 8 || (samples.size() < 40 && (nPaths & (nPaths - 1)) == 0)) {
    std::string s = "{\"inputs\":\"" + inputsHex(S->model, S->nvars) + "\",\"observed\":[";
    bool first = true;
    for (auto &o : S->obs) {
      u64 v = o.first.conc() ? o.first.v : (u64)evalS(o.first.e());
      char b[40];
      snprintf(b, sizeof b, "%s%llu", first ? "" : ",", (unsigned long long)v);
      s += b;
      first = false;
    }
    s += "]}";
    samples.push_back(s);
  }
  throw PathEnd();
}

static void step() {
  Frame *f = top();
  const Ins &I = f->f->blocks[f->bb].ins[f->ip];
  nInstr++;
  S->instrs++;
  if (I.dbg >= 0 && I.dbg < (int)dbgHit.size()) dbgHit[I.dbg] = 1;
  switch (I.op) {
  case I_LOAD: {
    Val v = doLoad(getq(I.o[0]), I.t);
    f = top();
    f->r[I.dst] = v;
    f->ip++;
    return;
  }
  case I_STORE: doStore(getq(I.o[0]), getq(I.o[1]), I.t); top()->ip++; return;
  case I_BR: enter(I.blk[0]); return;
  case I_CBR: {
    Val c = getq(I.o[0]);
    if (c.conc()) { enter(I.blk[(c.v & 1) ? 0 : 1]); return; }
    E e = subst(c.e());
    if (isC(e)) { enter(I.blk[e->c ? 0 : 1]); return; }
    if (oMerge && I.blk[0] != I.blk[1] && tryMerge(f, e, I.blk[0], I.blk[1])) return;
    bool v = decide(e);
    enter(I.blk[v ? 0 : 1]);
    return;
  }
  case I_SWITCH: {
    Val x = getq(I.o[0]);
    if (x.sym()) {
      E e = subst(x.e());
      if (isC(e)) x = cv((u64)e->c);
      else {
        u64 v = (u64)evalS(e);
        int dest = I.blk[0];
        for (size_t i = 0; i < I.imm.size(); i++) if (I.imm[i] == v) { dest = I.blk[i + 1]; break; }
        E cond = K(0, 1);
        if (dest != I.blk[0]) {
          for (size_t i = 0; i < I.imm.size(); i++) if (I.blk[i + 1] == dest) cond = mkOr(cond, mkEq(e, K(I.imm[i], e->w)));
        } else {
          cond = K(1, 1);
          for (size_t i = 0; i < I.imm.size(); i++) if (I.blk[i + 1] != dest) cond = mkAnd(cond, mkNot(mkEq(e, K(I.imm[i], e->w))));
        }
        if (!decide(cond)) fatal("switch model");
        enter(dest);
        return;
      }
    }
    for (size_t i = 0; i < I.imm.size(); i++) if (I.imm[i] == x.v) { enter(I.blk[i + 1]); return; }
    enter(I.blk[0]);
    return;
  }
  case I_RET: {
    Val v;
    if (!I.o.empty()) v = get(I.o[0]);
    for (size_t i = f->al.size(); i-- > 0;) {
      int k = memIdx(f->al[i]);
      if (k >= 0 && S->mem[k].first == f->al[i]) S->mem.erase(S->mem.begin() + k);
    }
    int dst = f->retDst, rb = f->retBlk;
    S->st.pop_back();
    if (S->st.empty()) endPath();
    uniqTop();
    f = top();
    if (dst >= 0) f->r[dst] = v;
    if (rb >= 0) enter(rb);
    else f->ip++;
    return;
  }
  case I_CALL: {
    if (I.fn && (I.intr != N_NONE || !I.fn->body)) {
      intrinsic(I);
      f = top();
      if (I.jumpsAfter) enter(I.blk[0]);
      else f->ip++;
      return;
    }
    Func *fn = I.fn;
    size_t na = I.o.size();
    if (!fn) {
      na--;
      u64 a = concPtr(getq(I.o[na]));
      auto it = M.faddr.find(a);
      if (it == M.faddr.end()) memErr(a, 0, "call");
      fn = it->second;
      if (fn->hook != N_NONE || !fn->body) {
        Ins J = I;
        J.fn = fn;
        J.callee = &fn->name;
        J.intr = fn->hook;
        J.o.pop_back();
        intrinsic(J);
        f = top();
        if (I.jumpsAfter) enter(I.blk[0]);
        else f->ip++;
        return;
      }
    }
    std::vector<Val> args(na);
    for (size_t i = 0; i < na; i++) args[i] = getq(I.o[i]);
    pushFrame(fn, args, I.dst, I.jumpsAfter ? I.blk[0] : -1);
    return;
  }
  case I_ALLOCA: {
    u64 a = allocObj(I.imm[0], I.imm[1], false);
    f->al.push_back(a);
    f->r[I.dst] = cv(a);
    f->ip++;
    return;
  }
  case I_UNREACH: violation("panic", "unreachable code reached", S->model); return;
  case I_RMW: {
    Val p = getq(I.o[0]), v = getq(I.o[1]);
    Val o = doLoad(p, I.t);
    Val n;
    switch (I.sub) {
    case 0: n = v; break;
    case 1: n = bin(I_ADD, o, v, I.t); break;
    case 2: n = bin(I_SUB, o, v, I.t); break;
    case 3: n = bin(I_AND, o, v, I.t); break;
    case 4: n = bin(I_OR, o, v, I.t); break;
    case 5: n = bin(I_XOR, o, v, I.t); break;
    default: engineStop("atomicrmw");
    }
    doStore(p, n, I.t);
    f = top();
    f->r[I.dst] = o;
    f->ip++;
    return;
  }
  case I_CMPXCHG: {
    Val p = getq(I.o[0]), c = getq(I.o[1]), n = getq(I.o[2]);
    Val o = doLoad(p, I.t);
    Val eq = icmp(P_EQ, o, c, I.t);
    bool t = eq.conc() ? eq.v & 1 : decide(eq.e());
    if (t) doStore(p, n, I.t);
    Agg *g = newAgg(2);
    g->f[0] = o;
    g->f[1] = cv(t);
    f = top();
    f->r[I.dst] = av(g);
    f->ip++;
    return;
  }
  case I_UNSUP: {
    const char *e = strchr(I.txt, '\n');
    engineStop("unsupported instruction: " + std::string(I.txt, e));
    return;
  }
  default:
    simpleIns(I);
    top()->ip++;
    return;
  }
}

static std::string status;
static void runAll() {
  while (!work.empty()) {
    S = work.back();
    work.pop_back();
    modelChanged();
    try {
      uniqTop();
      u64 k = 0;
      for (;;) {
        step();
        if ((++k & 1023) == 0) {
          if (now() - t0 > oTimeout) { incomplete.push_back("time limit\n" + backtrace()); throw StopAll(); }
          if (nInstr > oMaxInstr) { incomplete.push_back("instruction limit"); throw StopAll(); }
          if (S->instrs > oPathInstr) { violation("hang", "path longer than " + std::to_string(oPathInstr) + " instructions", S->model); }
        }
      }
    } catch (PathEnd &) {
    }
    delete S;
    S = nullptr;
    if (nPaths >= oMaxPaths) { incomplete.push_back("path limit"); throw StopAll(); }
  }
}

static void output() {
  FILE *o = oOut.empty() ? stdout : fopen(oOut.c_str(), "w");
  fprintf(o, "{\"entry\":\"%s\",\"status\":\"%s\",\"paths\":%llu,\"forks\":%llu,\"assumed_away\":%llu,\"instrs\":%llu,\"asserts\":%llu,\"symbolic_asserts\":%llu,\"merges\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"solver_s\":%.3f,\"wall_s\":%.3f,\n",
          oEntry.c_str(), status.c_str(), (unsigned long long)nPaths, (unsigned long long)nForks, (unsigned long long)nKilled, (unsigned long long)nInstr, (unsigned long long)nAsserts, (unsigned long long)nSymAsserts, (unsigned long long)nMerges,
          (unsigned long long)nQueries, (unsigned long long)nSat, (unsigned long long)nUnsat, (unsigned long long)nUnknown, (unsigned long long)nCacheHits, tSolver, now() - t0);
  fprintf(o, "\"reached\":[");
  bool f = true;
  for (u64 r : reached) { fprintf(o, "%s%llu", f ? "" : ",", (unsigned long long)r); f = false; }
  fprintf(o, "],\n\"incomplete\":[");
  f = true;
  for (auto &s : incomplete) { fprintf(o, "%s\"%s\"", f ? "" : ",", jesc(s).c_str()); f = false; }
  fprintf(o, "],\n\"samples\":[");
  f = true;
  for (auto &s : samples) { fprintf(o, "%s%s", f ? "" : ",\n", s.c_str()); f = false; }
  fprintf(o, "],\n\"functions\":[");
  // functions whose code was executed, from debug locations (this includes inlined ones)
  std::map<std::string, int> fns;
  std::unordered_map<int, int> seenScope;
  for (size_t i = 0; i < dbgHit.size(); i++)
    if (dbgHit[i]) {
      Loc l = locOf((int)i, false, nullptr);
      if (l.fn.empty()) continue;
      fns[l.file + "\t" + l.fn]++;
    }
  f = true;
  for (auto &x : fns) {
    size_t t = x.first.find('\t');
    fprintf(o, "%s[\"%s\",\"%s\",%d]", f ? "" : ",\n", jesc(x.first.substr(0, t)).c_str(), jesc(x.first.substr(t + 1)).c_str(), x.second);
    f = false;
  }
  fprintf(o, "]");
  if (const char *cd = getenv("SYMEX_COV")) { // development aid: executed source lines
    FILE *c = fopen((std::string(cd) + "/" + oEntry).c_str(), "w");
    for (size_t i = 0; c && i < dbgHit.size(); i++)
      if (dbgHit[i]) {
        Loc l = locOf((int)i, false, nullptr);
        if (l.line && l.file.find("src/") != std::string::npos) fprintf(c, "%s:%d\n", l.file.c_str(), l.line);
      }
    if (c) fclose(c);
  }
  if (!vKind.empty())
    fprintf(o, ",\n\"violation\":{\"kind\":\"%s\",\"msg\":\"%s\",\"inputs\":\"%s\",\"stack\":\"%s\"}", vKind.c_str(), jesc(vMsg).c_str(), vInputs.c_str(), jesc(vStack).c_str());
  fprintf(o, "}\n");
  if (o != stdout) fclose(o);
}

static int rc;
static std::string irPath;
static void *mainThread(void *) {
  t0 = now();
  try {
    zz = new Z;
    M.load(irPath.c_str());
    int mx = 0;
    for (auto &p : M.md) mx = std::max(mx, p.first);
    dbgHit.assign(mx + 1, 0);
    auto it = M.funcs.find(oEntry);
    if (it == M.funcs.end() || !it->second->body) fatal("no such harness: " + oEntry);
    S = new State;
    S->model.resize(8);
    pushFrame(it->second, {}, -1, -1);
    work.push_back(S);
    t0 = now();
    try {
      runAll();
      status = incomplete.empty() ? "ok" : "incomplete";
    } catch (StopAll &) {
      status = vKind.empty() ? "incomplete" : "violation";
    }
    output();
    rc = status == "ok" ? 0 : status == "violation" ? 1 : 2;
  } catch (std::exception &x) {
    fprintf(stderr, "symex: %s\n", x.what());
    if (S && !S->st.empty()) fprintf(stderr, "%s", backtrace().c_str());
    status = "error";
    incomplete.push_back(x.what());
    output();
    rc = 3;
  }
  return nullptr;
}

int main(int argc, char **argv) {
  std::vector<std::string> pos;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--out") oOut = nx();
    else if (a == "--timeout") oTimeout = atof(nx().c_str());
    else if (a == "--query-timeout") oQueryTimeout = atof(nx().c_str());
    else if (a == "--max-paths") oMaxPaths = strtoull(nx().c_str(), 0, 10);
    else if (a == "--path-instrs") oPathInstr = strtoull(nx().c_str(), 0, 10);
    else if (a == "--mux-bits") oMuxBits = atoi(nx().c_str());
    else if (a == "--max-alloc") oMaxAlloc = strtoull(nx().c_str(), 0, 10);
    else if (a == "--no-merge") oMerge = false;
    else if (a == "-v") oVerbose = true;
    else if (a == "--concrete") {
      concreteMode = true;
      std::string h = nx();
      for (size_t k = 0; k + 1 < h.size(); k += 2) concreteIn.push_back(strtoul(h.substr(k, 2).c_str(), 0, 16));
    } else pos.push_back(a);
  }
  if (pos.size() < 2) { fprintf(stderr, "usage: symex file.ll harness [--out f] [--timeout s] ...\n"); return 3; }
  irPath = pos[0];
  oEntry = pos[1];
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 1ull << 30);
  pthread_t th;
  if (pthread_create(&th, &at, mainThread, nullptr)) { fprintf(stderr, "thread\n"); return 3; }
  pthread_join(th, nullptr);
  fflush(nullptr);
  _Exit(rc);
}
