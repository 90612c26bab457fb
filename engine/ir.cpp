#include "ir.h"
#include <algorithm>
#include <deque>
#include <fcntl.h>
#include <stdexcept>
#include <unistd.h>

Module M;
static std::deque<Agg> aggs;
Agg *newAgg(size_t n) { aggs.emplace_back(); aggs.back().f.resize(n); return &aggs.back(); }
Val av(Agg *a) { Val r; r.p = (const void *)((uintptr_t)a | 1); return r; }
void fatal(const std::string &m) { throw std::runtime_error(m); }

struct Lex {
  const char *p, *e;
  void ws() { while (p < e && (*p == ' ' || *p == '\t' || *p == '\n')) p++; }
  bool eof() { ws(); return p >= e; }
  char peek() { ws(); return p < e ? *p : 0; }
  bool eat(char c) { if (peek() == c) { p++; return true; } return false; }
  void need(char c) { if (!eat(c)) err(std::string("expected ") + c); }
  [[noreturn]] void err(const std::string &m) {
    const char *q = p;
    while (q < e && q < p + 60 && *q != '\n') q++;
    fatal("parse: " + m + " at: " + std::string(p, q));
  }
  static bool idc(char c) { return isalnum((unsigned char)c) || c == '_' || c == '.' || c == '$' || c == '-'; }
  std::string word() { ws(); const char *s = p; while (p < e && idc(*p)) p++; return std::string(s, p); }
  std::string peekWord() { ws(); const char *s = p; while (s < e && idc(*s)) s++; return std::string(p, s); }
  bool eatw(const char *w) {
    ws();
    size_t n = strlen(w);
    if ((size_t)(e - p) >= n && !memcmp(p, w, n) && !(p + n < e && idc(p[n]))) { p += n; return true; }
    return false;
  }
  std::string name() { // after sigil
    if (p < e && *p == '"') {
      const char *s = ++p;
      while (p < e && *p != '"') p++;
      std::string r(s, p);
      p++;
      return r;
    }
    const char *s = p;
    while (p < e && idc(*p)) p++;
    return std::string(s, p);
  }
  void balanced() { // at '(' or '{' ...
    int d = 0;
    do {
      char c = *p++;
      if (c == '(' || c == '{' || c == '[' || c == '<') d++;
      else if (c == ')' || c == '}' || c == ']' || c == '>') d--;
      else if (c == '"') { while (*p != '"') p++; p++; }
    } while (d && p < e);
  }
};

static Type *mk(const std::string &key, Type t) {
  auto it = M.types.find(key);
  if (it != M.types.end()) return it->second;
  Type *r = new Type(t);
  auto rnd = [](u64 v, u64 a) { return (v + a - 1) / a * a; };
  switch (r->k) {
  case Type::Int: {
    u64 b = (r->w + 7) / 8;
    r->al = b <= 1 ? 1 : b <= 2 ? 2 : b <= 4 ? 4 : b <= 8 ? 8 : 16;
    r->sz = b; // store size
    break;
  }
  case Type::Ptr: r->w = 64; r->sz = r->al = 8; break;
  case Type::Float: r->sz = r->al = r->w / 8; break;
  case Type::Arr: r->al = r->el->al; r->sz = r->n * rnd(r->el->sz, r->el->al); break;
  case Type::Vec: r->sz = (r->n * r->el->w + 7) / 8; r->al = r->sz ? r->sz : 1; break;
  case Type::Struct: {
    u64 o = 0, al = 1;
    bool packed = r->w;
    for (Type *f : r->f) {
      if (!packed) o = rnd(o, f->al);
      r->offs.push_back(o);
      o += packed ? f->sz : rnd(f->sz, f->al);
      al = std::max(al, packed ? 1 : f->al);
    }
    r->al = al;
    r->sz = rnd(o, al);
    r->w = 0;
    break;
  }
  default: break;
  }
  M.types[key] = r;
  return r;
}
static Type *tInt(unsigned w) { Type t{Type::Int}; t.w = w; return mk("i" + std::to_string(w), t); }
static Type *tPtr() { Type t{Type::Ptr}; return mk("ptr", t); }
static Type *tVoid() { Type t{Type::Void}; return mk("void", t); }

static Type *ptype(Lex &L) {
  L.ws();
  char c = L.peek();
  if (c == 'i' && isdigit(L.p[1])) { L.p++; return tInt(strtoul(L.word().c_str(), 0, 10)); }
  if (L.eatw("ptr")) { if (L.eatw("addrspace")) L.balanced(); return tPtr(); }
  if (L.eatw("void")) return tVoid();
  if (L.eatw("float")) { Type t{Type::Float}; t.w = 32; return mk("float", t); }
  if (L.eatw("double")) { Type t{Type::Float}; t.w = 64; return mk("double", t); }
  if (L.eatw("half")) { Type t{Type::Float}; t.w = 16; return mk("half", t); }
  if (L.eatw("fp128")) { Type t{Type::Float}; t.w = 128; return mk("fp128", t); }
  if (L.eatw("metadata") || L.eatw("label") || L.eatw("token")) { Type t{Type::Other}; return mk("other", t); }
  if (c == '%') {
    L.p++;
    std::string n = L.name();
    auto it = M.namedT.find(n);
    if (it == M.namedT.end()) L.err("named type " + n);
    if (!strncmp(it->second, "opaque", 6)) { Type t{Type::Other}; return mk("other", t); }
    Lex S{it->second, M.text.data() + M.text.size()};
    return ptype(S);
  }
  if (c == '[' || (c == '<' && L.p[1] != '{')) {
    bool arr = c == '[';
    L.p++;
    Type t{arr ? Type::Arr : Type::Vec};
    t.n = strtoull(L.word().c_str(), 0, 10);
    if (!L.eatw("x")) L.err("x");
    t.el = ptype(L);
    L.need(arr ? ']' : '>');
    char b[64];
    snprintf(b, sizeof b, "%c%llu x %p", c, (unsigned long long)t.n, (void *)t.el);
    return mk(b, t);
  }
  if (c == '{' || c == '<') {
    bool packed = c == '<';
    if (packed) L.p++;
    L.need('{');
    Type t{Type::Struct};
    t.w = packed;
    std::string key = packed ? "<{" : "{";
    while (!L.eat('}')) {
      t.f.push_back(ptype(L));
      char b[32];
      snprintf(b, sizeof b, "%p,", (void *)t.f.back());
      key += b;
      L.eat(',');
    }
    if (packed) L.need('>');
    return mk(key, t);
  }
  L.err("type");
}

static u64 symAddr(const std::string &n0) {
  std::string n = n0;
  auto a = M.aliases.find(n);
  if (a != M.aliases.end()) n = a->second;
  auto g = M.globals.find(n);
  if (g != M.globals.end()) return g->second->addr;
  auto f = M.funcs.find(n);
  if (f != M.funcs.end()) return f->second->addr;
  fatal("unknown symbol @" + n);
}

static Val pconst(Lex &L, Type *t);
static Val ptconst(Lex &L, Type **tt = nullptr) { Type *t = ptype(L); if (tt) *tt = t; return pconst(L, t); }

static Val zeroOf(Type *t, u64 fill = 0) {
  if (t->scalar() || t->k == Type::Float) {
    if (t->w > 64) return ev(K(0, t->w));
    return cv(fill);
  }
  if (t->k == Type::Struct) { Agg *a = newAgg(t->f.size()); for (size_t i = 0; i < t->f.size(); i++) a->f[i] = zeroOf(t->f[i]); return av(a); }
  if (t->k == Type::Arr || t->k == Type::Vec) { Agg *a = newAgg(t->n); for (auto &x : a->f) x = zeroOf(t->el); return av(a); }
  return cv(0);
}
static u64 mask(u64 v, unsigned w) { return w >= 64 ? v : v & ((1ull << w) - 1); }

static bool skipGepFlags(Lex &L) {
  for (;;) {
    if (L.eatw("inbounds") || L.eatw("nuw") || L.eatw("nusw") || L.eatw("nsw") || L.eatw("exact")) continue;
    if (L.eatw("inrange")) { L.balanced(); continue; }
    return true;
  }
}

static Val pconst(Lex &L, Type *t) {
  char c = L.peek();
  if (c == '-' || isdigit(c)) {
    if (t->k == Type::Float) { L.word(); return cv(0); }
    const char *s = L.p;
    bool neg = *s == '-';
    if (neg) s++;
    u128 v = 0;
    while (isdigit(*s)) v = v * 10 + (*s++ - '0');
    L.p = s;
    if (neg) v = -v;
    if (t->w > 64) return ev(K(v, t->w));
    return cv(mask((u64)v, t->w));
  }
  if (c == '@') { L.p++; return cv(symAddr(L.name())); }
  if (L.eatw("true")) return cv(1);
  if (L.eatw("false")) return cv(0);
  if (L.eatw("null") || L.eatw("none")) return cv(0);
  if (L.eatw("undef") || L.eatw("poison") || L.eatw("zeroinitializer")) return zeroOf(t);
  if (c == 'c' && L.p[1] == '"') {
    L.p += 2;
    Agg *a = newAgg(t->n);
    for (u64 i = 0; i < t->n; i++) {
      unsigned char ch = *L.p++;
      if (ch == '\\') {
        if (*L.p == '\\') L.p++;
        else { char b[3] = {L.p[0], L.p[1], 0}; ch = strtoul(b, 0, 16); L.p += 2; }
      }
      a->f[i] = cv(ch);
    }
    L.need('"');
    return av(a);
  }
  if (c == '{' || c == '[' || c == '<') {
    bool packed = c == '<' && L.p[1] == '{';
    L.p += packed ? 2 : 1;
    std::vector<Val> v;
    for (;;) {
      char d = L.peek();
      if (d == '}' || d == ']' || (d == '>' && !packed)) break;
      v.push_back(ptconst(L));
      L.eat(',');
    }
    L.p++;
    if (packed) L.need('>');
    Agg *a = newAgg(v.size());
    a->f = v;
    return av(a);
  }
  if (L.eatw("splat")) {
    L.need('(');
    Val v = ptconst(L);
    L.need(')');
    Agg *a = newAgg(t->n);
    for (auto &x : a->f) x = v;
    return av(a);
  }
  if (L.eatw("getelementptr")) {
    skipGepFlags(L);
    L.need('(');
    Type *et = ptype(L);
    L.need(',');
    u64 a = ptconst(L).v;
    bool first = true;
    while (L.eat(',')) {
      if (L.eatw("inrange")) {}
      Type *it;
      Val iv = ptconst(L, &it);
      int64_t i = (int64_t)sx(iv.v, it->w);
      if (first) { a += i * ((et->sz + et->al - 1) / et->al * et->al); first = false; }
      else if (et->k == Type::Struct) { a += et->offs[i]; et = et->f[i]; }
      else { et = et->el; a += i * ((et->sz + et->al - 1) / et->al * et->al); }
    }
    L.need(')');
    return cv(a);
  }
  for (const char *w : {"ptrtoint", "inttoptr", "bitcast", "trunc", "ptrtoaddr"})
    if (L.eatw(w)) {
      skipGepFlags(L);
      L.need('(');
      Val v = ptconst(L);
      if (!L.eatw("to")) L.err("to");
      Type *d = ptype(L);
      L.need(')');
      return cv(mask(v.v, d->w));
    }
  for (const char *w : {"add", "sub", "xor", "mul", "and", "or", "shl", "lshr"})
    if (L.eatw(w)) {
      skipGepFlags(L);
      L.need('(');
      Val a = ptconst(L);
      L.need(',');
      Val b = ptconst(L);
      L.need(')');
      u64 r = 0;
      switch (w[0]) {
      case 'a': r = w[1] == 'd' ? a.v + b.v : a.v & b.v; break;
      case 's': r = w[1] == 'u' ? a.v - b.v : a.v << b.v; break;
      case 'x': r = a.v ^ b.v; break;
      case 'm': r = a.v * b.v; break;
      case 'o': r = a.v | b.v; break;
      case 'l': r = a.v >> b.v; break;
      }
      return cv(mask(r, t->w));
    }
  if (t->k == Type::Float) { L.word(); return cv(0); }
  L.err("constant");
}

static bool valueStart(Lex &L) {
  char c = L.peek();
  if (c == '%' || c == '@' || c == '-' || isdigit(c) || c == '{' || c == '[' || c == '<') return true;
  if (c == 'c' && L.p[1] == '"') return true;
  static const char *kw[] = {"true", "false", "null", "none", "undef", "poison", "zeroinitializer", "splat", "getelementptr", "ptrtoint", "inttoptr", "bitcast", "trunc", "add", "sub", "xor", "mul", "asm", "ptrtoaddr", nullptr};
  std::string w = L.peekWord();
  for (int i = 0; kw[i]; i++) if (w == kw[i]) return true;
  return false;
}
static void skipAttrs(Lex &L) {
  while (!valueStart(L)) {
    char c = L.peek();
    if (c == ')' || c == ',' || c == 0) return;
    if (c == '#') { L.p++; L.word(); continue; }
    if (c == '"') { L.p++; while (*L.p != '"') L.p++; L.p++; if (L.eat('=')) { L.need('"'); while (*L.p != '"') L.p++; L.p++; } continue; }
    std::string w = L.word();
    if (w.empty()) L.err("attribute");
    if (L.p < L.e && *L.p == '(') L.balanced();
    else if (w == "align" || w == "addrspace") { L.ws(); if (isdigit(L.peek())) L.word(); }
  }
}

struct FParse {
  Func *f;
  std::unordered_map<std::string, int> regs, blocks;
  int reg(const std::string &n) {
    auto it = regs.find(n);
    if (it != regs.end()) return it->second;
    int r = f->nregs++;
    regs[n] = r;
    return r;
  }
  int blk(const std::string &n) {
    auto it = blocks.find(n);
    if (it != blocks.end()) return it->second;
    int r = f->blocks.size();
    f->blocks.emplace_back();
    blocks[n] = r;
    return r;
  }
  Opd opd(Lex &L, Type *t) {
    Opd o;
    if (L.peek() == '%') { L.p++; o.reg = reg(L.name()); }
    else o.c = pconst(L, t);
    return o;
  }
  Opd topd(Lex &L, Type **tt) { *tt = ptype(L); return opd(L, *tt); }
  int label(Lex &L) {
    if (!L.eatw("label")) L.err("label");
    L.need('%');
    return blk(L.name());
  }
};

static Intr reduceKind(const std::string &n, uint8_t &sub);

static void pcall(FParse &P, Lex &L, Ins &I, bool inv) {
  I.op = I_CALL;
  // fast-math, calling convention, return attributes
  for (;;) {
    std::string w = L.peekWord();
    if (w == "fastcc" || w == "coldcc" || w == "ccc" || w == "preserve_mostcc" || w == "preserve_allcc" || w == "nnan" || w == "ninf" || w == "fast" || w == "contract") { L.word(); continue; }
    if (w == "cc") { L.word(); L.word(); continue; }
    if (L.peek() == '{' || L.peek() == '<' || L.peek() == '[' || L.peek() == '%') break;
    if (w == "void" || w == "ptr" || w == "float" || w == "double" || w == "half" || w == "fp128" || (w[0] == 'i' && w.size() > 1 && isdigit(w[1]))) break;
    L.word();
    if (L.p < L.e && *L.p == '(') L.balanced();
    else if (w == "align") L.word();
  }
  I.rt = ptype(L);
  if (L.peek() == '(') L.balanced(); // function type of varargs
  if (L.eatw("asm")) {
    I.op = I.rt->k == Type::Void ? I_NOP : I_UNSUP;
    return;
  }
  Opd callee;
  if (L.peek() == '@') {
    L.p++;
    std::string n = L.name();
    auto al = M.aliases.find(n);
    if (al != M.aliases.end()) n = al->second;
    auto it = M.funcs.find(n);
    if (it == M.funcs.end()) L.err("callee " + n);
    I.fn = it->second;
    I.callee = &it->second->name;
    I.intr = it->second->hook;
    if (I.intr == N_REDUCE) reduceKind(n, I.sub);
  } else {
    L.need('%');
    callee.reg = P.reg(L.name());
  }
  L.need('(');
  while (!L.eat(')')) {
    if (L.eatw("...")) continue;
    Type *t = ptype(L);
    if (t->k == Type::Other) { // metadata argument
      while (L.peek() != ',' && L.peek() != ')') { if (*L.p == '(' || *L.p == '{') L.balanced(); else L.p++; }
      L.eat(',');
      continue;
    }
    u64 byval = 0;
    (void)byval;
    skipAttrs(L);
    I.o.push_back(P.opd(L, t));
    I.ot.push_back(t);
    L.eat(',');
  }
  if (!I.fn) I.o.push_back(callee);
  if (inv) {
    const char *q = L.p;
    std::string rest(q, L.e);
    size_t k = rest.find("to label");
    if (k == std::string::npos) L.err("invoke target");
    L.p = q + k + 2;
    I.blk.push_back(P.label(L));
    I.jumpsAfter = true;
  }
}

static Pred ppred(const std::string &w) {
  static const char *n[] = {"eq", "ne", "ult", "ule", "ugt", "uge", "slt", "sle", "sgt", "sge"};
  for (int i = 0; i < 10; i++) if (w == n[i]) return (Pred)i;
  fatal("predicate " + w);
}

static void pins(FParse &P, Lex &L, Block &B) {
  Ins I;
  I.op = I_UNSUP;
  I.txt = L.p;
  if (L.peek() == '%') {
    L.p++;
    I.dst = P.reg(L.name());
    L.need('=');
  }
  std::string w = L.word();
  if (w == "tail" || w == "musttail" || w == "notail") w = L.word();
  static const std::unordered_map<std::string, IOp> bin = {{"add", I_ADD}, {"sub", I_SUB}, {"mul", I_MUL}, {"udiv", I_UDIV}, {"sdiv", I_SDIV}, {"urem", I_UREM}, {"srem", I_SREM}, {"and", I_AND}, {"or", I_OR}, {"xor", I_XOR}, {"shl", I_SHL}, {"lshr", I_LSHR}, {"ashr", I_ASHR}};
  auto b = bin.find(w);
  if (b != bin.end()) {
    I.op = b->second;
    while (L.eatw("nuw") || L.eatw("nsw") || L.eatw("exact") || L.eatw("disjoint")) {}
    I.t = I.rt = ptype(L);
    I.o.push_back(P.opd(L, I.t));
    L.need(',');
    I.o.push_back(P.opd(L, I.t));
  } else if (w == "icmp") {
    I.op = I_ICMP;
    L.eatw("samesign");
    I.sub = ppred(L.word());
    I.t = ptype(L);
    I.o.push_back(P.opd(L, I.t));
    L.need(',');
    I.o.push_back(P.opd(L, I.t));
    I.rt = I.t->k == Type::Vec ? nullptr : tInt(1);
  } else if (w == "select") {
    I.op = I_SELECT;
    Type *ct;
    I.o.push_back(P.topd(L, &ct));
    I.ot.push_back(ct);
    L.need(',');
    I.o.push_back(P.topd(L, &I.t));
    L.need(',');
    Type *t2;
    I.o.push_back(P.topd(L, &t2));
    I.rt = I.t;
  } else if (w == "phi") {
    I.op = I_PHI;
    I.t = I.rt = ptype(L);
    for (;;) {
      L.need('[');
      I.o.push_back(P.opd(L, I.t));
      L.need(',');
      L.need('%');
      I.blk.push_back(P.blk(L.name()));
      L.need(']');
      if (!L.eat(',')) break;
      if (L.peek() == '!') break;
    }
    B.nphi++;
  } else if (w == "br") {
    if (L.peek() == 'l') { I.op = I_BR; I.blk.push_back(P.label(L)); }
    else {
      I.op = I_CBR;
      I.o.push_back(P.topd(L, &I.t));
      L.need(',');
      I.blk.push_back(P.label(L));
      L.need(',');
      I.blk.push_back(P.label(L));
    }
  } else if (w == "switch") {
    I.op = I_SWITCH;
    I.o.push_back(P.topd(L, &I.t));
    L.need(',');
    I.blk.push_back(P.label(L));
    L.need('[');
    while (!L.eat(']')) {
      Type *t;
      Opd o = P.topd(L, &t);
      I.imm.push_back(o.c.v);
      L.need(',');
      I.blk.push_back(P.label(L));
    }
  } else if (w == "ret") {
    I.op = I_RET;
    I.t = ptype(L);
    if (I.t->k != Type::Void) I.o.push_back(P.opd(L, I.t));
  } else if (w == "unreachable") I.op = I_UNREACH;
  else if (w == "call") pcall(P, L, I, false);
  else if (w == "invoke") pcall(P, L, I, true);
  else if (w == "alloca") {
    I.op = I_ALLOCA;
    I.t = ptype(L);
    I.rt = tPtr();
    u64 n = 1, al = I.t->al;
    while (L.eat(',')) {
      if (L.eatw("align")) al = strtoull(L.word().c_str(), 0, 10);
      else if (L.peek() == '!') break;
      else if (L.peek() == 'i') { Type *t; Opd o = P.topd(L, &t); if (o.reg >= 0) L.err("dynamic alloca"); n = o.c.v; }
    }
    I.imm = {I.t->sz * n, al};
  } else if (w == "load" || w == "store") {
    bool ld = w == "load";
    I.op = ld ? I_LOAD : I_STORE;
    L.eatw("atomic");
    L.eatw("volatile");
    if (ld) I.t = I.rt = ptype(L);
    else I.o.push_back(P.topd(L, &I.t));
    L.need(',');
    Type *pt;
    I.o.push_back(P.topd(L, &pt));
    if (!ld) std::swap(I.o[0], I.o[1]); // o[0] = address
  } else if (w == "getelementptr") {
    I.op = I_GEP;
    skipGepFlags(L);
    Type *et = ptype(L);
    L.need(',');
    Type *pt;
    I.o.push_back(P.topd(L, &pt));
    I.rt = pt;
    u64 off = 0;
    bool first = true, vec = pt->k == Type::Vec;
    while (L.eat(',')) {
      if (L.peek() == '!') break;
      Type *it;
      Opd o = P.topd(L, &it);
      if (it->k == Type::Vec) vec = true;
      u64 scale;
      if (first) { scale = (et->sz + et->al - 1) / et->al * et->al; first = false; }
      else if (et->k == Type::Struct) { u64 i = o.c.v; off += et->offs[i]; et = et->f[i]; continue; }
      else { et = et->el; scale = (et->sz + et->al - 1) / et->al * et->al; }
      if (vec) continue;
      if (o.reg < 0) off += (u64)((int64_t)sx(o.c.v, it->w) * (int64_t)scale);
      else { I.o.push_back(o); I.ot.push_back(it); I.imm.push_back(scale); }
    }
    I.imm.insert(I.imm.begin(), off);
    if (vec) I.op = I_UNSUP;
  } else if (w == "zext" || w == "sext" || w == "trunc" || w == "ptrtoint" || w == "inttoptr" || w == "bitcast" || w == "ptrtoaddr") {
    while (L.eatw("nneg") || L.eatw("nuw") || L.eatw("nsw")) {}
    I.o.push_back(P.topd(L, &I.t));
    if (!L.eatw("to")) L.err("to");
    I.rt = ptype(L);
    I.op = w == "zext" ? I_ZEXT : w == "sext" ? I_SEXT : w == "trunc" ? I_TRUNC : w == "bitcast" ? I_BITCAST : I_CAST;
  } else if (w == "freeze") {
    I.op = I_FREEZE;
    I.o.push_back(P.topd(L, &I.t));
    I.rt = I.t;
  } else if (w == "extractvalue") {
    I.op = I_EXTRACTV;
    I.o.push_back(P.topd(L, &I.t));
    while (L.eat(',')) { if (L.peek() == '!') break; I.imm.push_back(strtoull(L.word().c_str(), 0, 10)); }
  } else if (w == "insertvalue") {
    I.op = I_INSERTV;
    I.o.push_back(P.topd(L, &I.t));
    L.need(',');
    Type *t2;
    I.o.push_back(P.topd(L, &t2));
    I.rt = I.t;
    while (L.eat(',')) { if (L.peek() == '!') break; I.imm.push_back(strtoull(L.word().c_str(), 0, 10)); }
  } else if (w == "extractelement") {
    I.op = I_EXTRACTE;
    I.o.push_back(P.topd(L, &I.t));
    L.need(',');
    Type *t2;
    I.o.push_back(P.topd(L, &t2));
    I.rt = I.t->el;
  } else if (w == "insertelement") {
    I.op = I_INSERTE;
    I.o.push_back(P.topd(L, &I.t));
    L.need(',');
    Type *t2;
    I.o.push_back(P.topd(L, &t2));
    L.need(',');
    I.o.push_back(P.topd(L, &t2));
    I.rt = I.t;
  } else if (w == "shufflevector") {
    I.op = I_SHUF;
    I.o.push_back(P.topd(L, &I.t));
    L.need(',');
    Type *t2, *mt;
    I.o.push_back(P.topd(L, &t2));
    L.need(',');
    I.o.push_back(P.topd(L, &mt));
    I.imm.push_back(mt->n);
  } else if (w == "atomicrmw") {
    I.op = I_RMW;
    L.eatw("volatile");
    std::string k = L.word();
    static const char *ks[] = {"xchg", "add", "sub", "and", "or", "xor", "umax", "umin"};
    I.sub = 255;
    for (int i = 0; i < 8; i++) if (k == ks[i]) I.sub = i;
    Type *pt;
    I.o.push_back(P.topd(L, &pt));
    L.need(',');
    I.o.push_back(P.topd(L, &I.t));
    I.rt = I.t;
  } else if (w == "cmpxchg") {
    I.op = I_CMPXCHG;
    L.eatw("weak");
    L.eatw("volatile");
    Type *pt;
    I.o.push_back(P.topd(L, &pt));
    L.need(',');
    I.o.push_back(P.topd(L, &I.t));
    L.need(',');
    I.o.push_back(P.topd(L, &I.t));
  } else if (w == "fence") I.op = I_NOP;
  else I.op = I_UNSUP;
  // debug location
  const char *d = L.e;
  std::string rest(L.p, d);
  size_t k = rest.rfind("!dbg !");
  if (k != std::string::npos) I.dbg = atoi(rest.c_str() + k + 6);
  B.ins.push_back(std::move(I));
}

void Module::parse(Func *f) {
  if (f->parsed) return;
  f->parsed = true;
  if (!f->body) return;
  FParse P{f, {}, {}};
  int unnamed = 0; // an unnamed entry block is numbered after the unnamed arguments
  // arguments
  {
    Lex L{f->head, f->body};
    std::string key = "@";
    const char *a = (const char *)memmem(L.p, L.e - L.p, key.data(), 1);
    L.p = a + 1;
    L.name();
    L.need('(');
    while (!L.eat(')')) {
      if (L.eatw("...")) continue;
      ptype(L);
      skipAttrs(L);
      if (L.peek() == '%') {
        L.p++;
        std::string an = L.name();
        if (isdigit(an[0])) unnamed++;
        f->args.push_back(P.reg(an));
      } else { unnamed++; f->args.push_back(f->nregs++); }
      L.eat(',');
    }
    std::string rest(L.p, f->body);
    size_t k = rest.rfind("!dbg !");
    if (k != std::string::npos) f->subprog = atoi(rest.c_str() + k + 6);
  }
  const char *p = f->body, *e = f->end;
  Block *cur = nullptr;
  int curIdx = -1;
  std::vector<Block> order;
  auto lineEnd = [&](const char *q) { const char *n = (const char *)memchr(q, '\n', e - q); return n ? n : e; };
  while (p < e) {
    const char *n = lineEnd(p);
    if (p == n || *p == ';') { p = n + 1; continue; }
    if (*p != ' ') { // label
      std::string lab;
      const char *q = p;
      if (*q == '"') { const char *z = (const char *)memchr(q + 1, '"', n - q); lab.assign(q + 1, z); }
      else { const char *z = (const char *)memchr(q, ':', n - q); if (!z) fatal("label?"); lab.assign(q, z); }
      curIdx = P.blk(lab);
      p = n + 1;
      continue;
    }
    // instruction: join continuation lines
    const char *s = p, *t = n;
    const char *q = s;
    while (*q == ' ') q++;
    if (*q == '#' || *q == ';') { p = n + 1; continue; }
    if (q - s == 2 && !strncmp(q, "switch", 6)) {
      while (true) {
        const char *r = t - 1;
        (void)r;
        if (memchr(s, ']', t - s) && std::string(s, t).find("  ]") != std::string::npos) break;
        t = lineEnd(t + 1);
        if (t >= e) break;
      }
    } else {
      while (t + 1 < e && !strncmp(t + 1, "          ", 10)) t = lineEnd(t + 1);
    }
    if (curIdx < 0) curIdx = P.blk(std::to_string(unnamed));
    Lex L{q, t};
    if (!(L.p < L.e)) { p = t + 1; continue; }
    try {
      // landingpad and its clauses
      std::string lead(q, std::min<size_t>(t - q, 200));
      if (lead.find("= landingpad") != std::string::npos || !strncmp(q, "resume", 6)) {
        Ins I; I.op = I_UNSUP; I.txt = q;
        f->blocks[curIdx].ins.push_back(I);
      } else {
        Block tmp;
        tmp.nphi = 0;
        pins(P, L, tmp);
        Block &B = f->blocks[curIdx];
        B.nphi += tmp.nphi;
        B.ins.push_back(std::move(tmp.ins[0]));
      }
    } catch (std::runtime_error &x) {
      Ins I; I.op = I_UNSUP; I.txt = q;
      if (getenv("SYMEX_PARSE")) fprintf(stderr, "%s: %s\n", f->name.c_str(), x.what());
      f->blocks[curIdx].ins.push_back(I);
    }
    p = t + 1;
  }
  (void)cur;
  // move entry first: the first label seen gets index 0 because blk() assigns in order
}

static void storeConst(Type *t, const Val &v, uint8_t *out) {
  if (t->k == Type::Struct) { for (size_t i = 0; i < t->f.size(); i++) storeConst(t->f[i], v.agg()->f[i], out + t->offs[i]); return; }
  if (t->k == Type::Arr) { u64 st = (t->el->sz + t->el->al - 1) / t->el->al * t->el->al; for (u64 i = 0; i < t->n; i++) storeConst(t->el, v.agg()->f[i], out + i * st); return; }
  if (t->k == Type::Vec) { for (u64 i = 0; i < t->n; i++) storeConst(t->el, v.agg()->f[i], out + i * t->el->sz); return; }
  if (t->k == Type::Float) return;
  u128 x = v.p ? v.e()->c : v.v;
  for (u64 i = 0; i < t->sz; i++) out[i] = (uint8_t)(x >> (8 * i));
}
void Module::initGlobal(Global *g, std::vector<uint8_t> &out) {
  out.assign(g->size, 0);
  if (!g->init) return;
  Lex L{g->init, text.data() + text.size()};
  if (L.eatw("zeroinitializer")) return;
  Val v = pconst(L, g->t);
  storeConst(g->t, v, out.data());
}
Global *Module::globalAt(u64 a) {
  size_t lo = 0, hi = glist.size();
  while (lo < hi) { size_t m = (lo + hi) / 2; if (glist[m]->addr <= a) lo = m + 1; else hi = m; }
  if (!lo) return nullptr;
  Global *g = glist[lo - 1];
  return a <= g->addr + g->size ? g : nullptr;
}

static Intr reduceKind(const std::string &n, uint8_t &sub) {
  sub = n.find(".or.") != std::string::npos ? 0 : n.find(".and.") != std::string::npos ? 1 : n.find(".add.") != std::string::npos ? 2 : 255;
  return N_REDUCE;
}

Intr classify(const std::string &n) {
  auto st = [&](const char *s) { return n.compare(0, strlen(s), s) == 0; };
  auto has = [&](const char *s) { return n.find(s) != std::string::npos; };
  if (st("llvm.")) {
    static const std::vector<std::pair<const char *, Intr>> t = {
        {"llvm.memcpy", N_MEMCPY}, {"llvm.memmove", N_MEMCPY}, {"llvm.memset", N_MEMSET}, {"llvm.lifetime", N_NOP}, {"llvm.assume", N_NOP},
        {"llvm.experimental.noalias", N_NOP}, {"llvm.dbg", N_NOP}, {"llvm.donothing", N_NOP}, {"llvm.prefetch", N_NOP}, {"llvm.x86.sse2.pause", N_NOP},
        {"llvm.expect", N_EXPECT}, {"llvm.uadd.with", N_UADDO}, {"llvm.usub.with", N_USUBO}, {"llvm.umul.with", N_UMULO}, {"llvm.sadd.with", N_SADDO},
        {"llvm.ssub.with", N_SSUBO}, {"llvm.smul.with", N_SMULO}, {"llvm.uadd.sat", N_UADDSAT}, {"llvm.usub.sat", N_USUBSAT}, {"llvm.sadd.sat", N_SADDSAT},
        {"llvm.ssub.sat", N_SSUBSAT}, {"llvm.umin", N_UMIN}, {"llvm.umax", N_UMAX}, {"llvm.smin", N_SMIN}, {"llvm.smax", N_SMAX}, {"llvm.ctpop", N_CTPOP},
        {"llvm.ctlz", N_CTLZ}, {"llvm.cttz", N_CTTZ}, {"llvm.bswap", N_BSWAP}, {"llvm.bitreverse", N_BITREV}, {"llvm.fshl", N_FSHL}, {"llvm.fshr", N_FSHR},
        {"llvm.abs", N_ABS}, {"llvm.ucmp", N_UCMP}, {"llvm.scmp", N_SCMP}, {"llvm.is.constant", N_ISCONST}, {"llvm.threadlocal.address", N_TLADDR},
        {"llvm.load.relative", N_LOADREL}, {"llvm.trap", N_TRAP}, {"llvm.ubsantrap", N_TRAP}, {"llvm.ptrmask", N_PTRMASK}, {"llvm.vector.reduce", N_REDUCE}};
    for (auto &p : t) if (st(p.first)) return p.second;
    return N_UNSUP;
  }
  static const std::unordered_map<std::string, Intr> ex = {
      {"bcmp", N_BCMP}, {"memcmp", N_MEMCMP}, {"strlen", N_STRLEN}, {"getrandom", N_RANDOM}, {"malloc", N_MALLOC}, {"calloc", N_CALLOC}, {"realloc", N_REALLOC}, {"free", N_FREE},
      {"posix_memalign", N_MEMALIGN}, {"abort", N_TRAP}, {"sym_bytes", N_S_BYTES}, {"sym_assume", N_S_ASSUME}, {"sym_assert", N_S_ASSERT}, {"sym_assert_eq", N_S_ASSERTEQ},
      {"sym_reach", N_S_REACH}, {"sym_concretize", N_S_CONC}, {"sym_observe", N_S_OBSERVE}, {"memcpy", N_MEMCPY}, {"memmove", N_MEMCPY}, {"memset", N_MEMSET}};
  auto it = ex.find(n);
  if (it != ex.end()) return it->second;
  if (has("5alloc3fmt6format")) return N_FORMAT;
  if (has("4core9panicking") || has("slice_index_fail") || has("slice_error_fail") || has("13unwrap_failed") || has("13expect_failed") || has("len_mismatch_fail") || has("3std9panicking")) return N_PANIC;
  if (has("18handle_alloc_error") || has("17capacity_overflow") || has("raw_vec12handle_error")) return N_OOM;
  return N_NONE;
}

void Module::load(const char *path) {
  int fd = open(path, O_RDONLY);
  if (fd < 0) fatal(std::string("cannot open ") + path);
  off_t n = lseek(fd, 0, SEEK_END);
  lseek(fd, 0, SEEK_SET);
  text.resize(n);
  for (off_t i = 0; i < n;) { ssize_t k = read(fd, &text[i], n - i); if (k <= 0) fatal("read"); i += k; }
  close(fd);
  const char *p = text.data(), *e = p + n;
  u64 fa = 0x10000000;
  std::string pretty;
  struct PG { const char *at; };
  std::vector<PG> pg;
  while (p < e) {
    const char *nl = (const char *)memchr(p, '\n', e - p);
    if (!nl) nl = e;
    if (*p == '@') pg.push_back({p});
    else if (*p == ';') { if (nl - p > 2 && strncmp(p, "; Function Attrs", 16)) pretty.assign(p + 2, nl); p = nl + 1; continue; }
    else if (*p == '%') {
      Lex L{p + 1, e};
      std::string nm = L.name();
      L.need('=');
      L.eatw("type");
      L.ws();
      namedT[nm] = L.p;
    } else if (*p == '!') {
      if (isdigit(p[1])) md[atoi(p + 1)] = p;
    } else if (!strncmp(p, "define", 6) || !strncmp(p, "declare", 7)) {
      const char *at = (const char *)memchr(p, '@', nl - p);
      // return attributes never contain '@'
      Lex L{at + 1, e};
      std::string nm = L.name();
      Func *f = new Func;
      f->name = nm;
      f->pretty = pretty;
      f->head = p;
      f->addr = fa;
      fa += 16;
      if (*p == 'd' && p[2] == 'f') {
        f->body = nl + 1;
        const char *q = f->body;
        while (true) {
          const char *z = (const char *)memmem(q, e - q, "\n}\n", 3);
          if (!z) fatal("unterminated function");
          f->end = z + 1;
          nl = z + 2;
          break;
        }
      }
      f->hook = classify(nm);
      funcs[nm] = f;
      faddr[f->addr] = f;
    }
    pretty.clear();
    p = nl + 1;
  }
  u64 ga = 0x20000000;
  std::vector<std::pair<Global *, const char *>> pending;
  for (auto &x : pg) {
    Lex L{x.at + 1, e};
    std::string nm = L.name();
    L.need('=');
    bool ext = false, constant = false, alias = false;
    for (;;) {
      std::string w = L.peekWord();
      if (w == "global") { L.word(); break; }
      if (w == "constant") { L.word(); constant = true; break; }
      if (w == "alias" || w == "ifunc") { L.word(); alias = true; break; }
      if (w == "external" || w == "extern_weak") ext = true;
      if (w.empty()) L.err("global");
      L.word();
      if (L.p < e && *L.p == '(') L.balanced();
    }
    if (alias) {
      const char *nl = (const char *)memchr(L.p, '\n', e - L.p);
      const char *at = nl;
      while (*at != '@') at--;
      Lex S{at + 1, e};
      aliases[nm] = S.name();
      continue;
    }
    Global *g = new Global;
    g->name = nm;
    g->t = ptype(L);
    L.ws();
    g->init = ext ? nullptr : L.p;
    g->constant = constant;
    g->size = g->t->sz;
    u64 al = 16;
    const char *nl = (const char *)memchr(L.p, '\n', e - L.p);
    const char *ap = nl;
    while (ap > L.p && strncmp(ap, ", align ", 8)) ap--;
    if (ap > L.p) al = std::max<u64>(al, strtoull(ap + 8, 0, 10));
    ga = (ga + al - 1) / al * al;
    g->addr = ga;
    ga += g->size + 32;
    globals[nm] = g;
    glist.push_back(g);
  }
}
