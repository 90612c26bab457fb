#include "expr.h"
#include <algorithm>

Ctx X;
Z *zz;

static void pieces(E e, std::vector<E> &out) { // msb first
  while (e->op == CONCAT) {
    pieces(e->k[0], out);
    e = e->k[1];
  }
  out.push_back(e);
}

E mkConcat(E a, E b) {
  if (isC(a) && isC(b)) return K((a->c << b->w) | b->c, a->w + b->w);
  if (a->op == CONCAT) return mkConcat(a->k[0], mkConcat(a->k[1], b));
  // a is not a concat here; right-associated normal form
  E h = b->op == CONCAT ? b->k[0] : b;
  E m = nullptr;
  if (isC(a) && isC(h)) m = K((a->c << h->w) | h->c, a->w + h->w);
  else {
    E ab = a->op == EXTRACT ? a->k[0] : a, hb = h->op == EXTRACT ? h->k[0] : h;
    unsigned ao = a->op == EXTRACT ? (unsigned)a->c : 0, ho = h->op == EXTRACT ? (unsigned)h->c : 0;
    if (ab == hb && ao == ho + h->w && (a->op == EXTRACT || h->op == EXTRACT)) m = mkExtract(ab, ho, a->w + h->w);
    // the low part of a sum was narrowed when it was taken out: put the sum together again
    if (!m && a->op == EXTRACT && (ab->op == ADD || ab->op == SUB || ab->op == MUL)) {
      if (ao == b->w && mkExtract(ab, 0, ao) == b) return mkExtract(ab, 0, ao + a->w);
      if (ao == h->w && mkExtract(ab, 0, ao) == h) m = mkExtract(ab, 0, ao + a->w);
    }
    // same ite condition on both
    if (!m && a->op == ITE && h->op == ITE && a->k[0] == h->k[0] && a->w + h->w <= 128) {
      E t = mkConcat(a->k[1], h->k[1]), f = mkConcat(a->k[2], h->k[2]);
      m = mkIte(a->k[0], t, f);
    }
  }
  if (m) return b->op == CONCAT ? mkConcat(m, b->k[1]) : m;
  return raw(CONCAT, a->w + b->w, 0, a, b);
}

E mkExtract(E a, unsigned off, unsigned w) {
  if (off == 0 && w == a->w) return a;
  switch (a->op) {
  case CONST: return K(a->c >> off, w);
  case EXTRACT: return mkExtract(a->k[0], off + (unsigned)a->c, w);
  case CONCAT: {
    unsigned lw = a->k[1]->w;
    if (off >= lw) return mkExtract(a->k[0], off - lw, w);
    if (off + w <= lw) return mkExtract(a->k[1], off, w);
    return mkConcat(mkExtract(a->k[0], 0, off + w - lw), mkExtract(a->k[1], off, lw - off));
  }
  case AND: return mkAnd(mkExtract(a->k[0], off, w), mkExtract(a->k[1], off, w));
  case OR: return mkOr(mkExtract(a->k[0], off, w), mkExtract(a->k[1], off, w));
  case XOR: return mkXor(mkExtract(a->k[0], off, w), mkExtract(a->k[1], off, w));
  case NOT: return mkNot(mkExtract(a->k[0], off, w));
  case SEXT: {
    unsigned iw = a->k[0]->w;
    if (off + w <= iw) return mkExtract(a->k[0], off, w);
    if (off >= iw - 1) return mkSext(mkExtract(a->k[0], iw - 1, 1), w);
    return mkSext(mkExtract(a->k[0], off, iw - off), w);
  }
  case ADD:
    if (off == 0) return mkAdd(mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
    break;
  case SUB:
    if (off == 0) return mkSub(mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
    break;
  case MUL:
    if (off == 0) return mkMul(mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
    break;
  case ITE:
    if (isC(a->k[1]) || isC(a->k[2]) || a->k[1]->op == CONCAT || a->k[2]->op == CONCAT || a->k[1]->op == ITE || a->k[2]->op == ITE)
      return mkIte(a->k[0], mkExtract(a->k[1], off, w), mkExtract(a->k[2], off, w));
    break;
  default: break;
  }
  return raw(EXTRACT, w, off, a);
}

E mkZext(E a, unsigned w) { return w == a->w ? a : mkConcat(K(0, w - a->w), a); }
E mkSext(E a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a)) return K((u128)sx(a->c, a->w), w);
  if (a->op == SEXT) return mkSext(a->k[0], w);
  if (a->op == CONCAT && isC(a->k[0]) && !((a->k[0]->c >> (a->k[0]->w - 1)) & 1)) return mkZext(a, w);
  if (a->op == ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkSext(a->k[1], w), mkSext(a->k[2], w));
  return raw(SEXT, w, 0, a);
}

E mkNot(E a) {
  if (isC(a)) return K(~a->c, a->w);
  if (a->op == NOT) return a->k[0];
  if (a->w == 1) {
    if (a->op == ULT) return mkUle(a->k[1], a->k[0]);
    if (a->op == ULE) return mkUlt(a->k[1], a->k[0]);
    if (a->op == SLT) return mkSle(a->k[1], a->k[0]);
    if (a->op == SLE) return mkSlt(a->k[1], a->k[0]);
    if (a->op == ITE && (isC(a->k[1]) || isC(a->k[2]))) return mkIte(a->k[0], mkNot(a->k[1]), mkNot(a->k[2]));
  }
  if (a->op == CONCAT) return mkConcat(mkNot(a->k[0]), mkNot(a->k[1]));
  if (a->op == ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkNot(a->k[1]), mkNot(a->k[2]));
  return raw(NOT, a->w, 0, a);
}

static E bitw(Op op, E a, E b) { return op == AND ? mkAnd(a, b) : op == OR ? mkOr(a, b) : mkXor(a, b); }

// split constant into a few runs so that and/or with masks become concats
static E splitConst(Op op, E x, E c) {
  unsigned w = x->w, runs = 1;
  for (unsigned i = 1; i < w; i++) runs += ((c->c >> i) & 1) != ((c->c >> (i - 1)) & 1);
  if (runs > 5 || runs == 1) return nullptr;
  E r = nullptr;
  unsigned i = 0;
  while (i < w) {
    unsigned j = i;
    bool bit = (c->c >> i) & 1;
    while (j < w && (bool)((c->c >> j) & 1) == bit) j++;
    E xe = mkExtract(x, i, j - i);
    E p;
    if (op == AND) p = bit ? xe : K(0, j - i);
    else p = bit ? K(~(u128)0, j - i) : xe;
    r = r ? mkConcat(p, r) : p;
    i = j;
  }
  return r;
}

static E splitConcat(Op op, E a, E b) {
  // piecewise when at least one operand is a concat with a constant piece
  if (a->op != CONCAT && b->op != CONCAT) return nullptr;
  auto hasC = [](E e) {
    if (e->op != CONCAT) return false;
    for (E p = e;; p = p->k[1]) {
      if (p->op != CONCAT) return isC(p);
      if (isC(p->k[0])) return true;
    }
  };
  if (!hasC(a) && !hasC(b)) return nullptr;
  std::vector<E> pa, pb;
  pieces(a, pa);
  pieces(b, pb);
  std::vector<unsigned> cuts;
  unsigned o = 0;
  for (int i = (int)pa.size() - 1; i >= 0; i--) cuts.push_back(o += pa[i]->w);
  o = 0;
  for (int i = (int)pb.size() - 1; i >= 0; i--) cuts.push_back(o += pb[i]->w);
  std::sort(cuts.begin(), cuts.end());
  cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
  if (cuts.size() > 20) return nullptr;
  E r = nullptr;
  unsigned p = 0;
  for (unsigned c : cuts) {
    E x = bitw(op, mkExtract(a, p, c - p), mkExtract(b, p, c - p));
    r = r ? mkConcat(x, r) : x;
    p = c;
  }
  return r;
}

static bool opp(E a, E b) { return mkNot(a) == b; }

E mkAnd(E a, E b) {
  if (isC(a)) std::swap(a, b);
  if (isC(a)) return K(a->c & b->c, a->w);
  if (isC(b, 0)) return b;
  if (isC(b, ~(u128)0)) return a;
  if (a == b) return a;
  if (a->w == 1) {
    if (opp(a, b)) return K(0, 1);
    if (a->op == AND && (a->k[0] == b || a->k[1] == b)) return a;
    if (b->op == AND && (b->k[0] == a || b->k[1] == a)) return b;
    if (a->op == AND && (opp(a->k[0], b) || opp(a->k[1], b))) return K(0, 1);
    if (b->op == AND && (opp(b->k[0], a) || opp(b->k[1], a))) return K(0, 1);
    // x==c1 & x==c2
    if (a->op == EQ && b->op == EQ && a->k[0] == b->k[0] && isC(a->k[1]) && isC(b->k[1])) return K(0, 1);
    if (b->op == EQ && isC(b->k[1])) std::swap(a, b);
    if (a->op == EQ && isC(a->k[1]) && b->op == NOT && b->k[0]->op == EQ && b->k[0]->k[0] == a->k[0] && isC(b->k[0]->k[1])) return a;
  } else {
    if (isC(b)) { if (E r = splitConst(AND, a, b)) return r; }
    if (E r = splitConcat(AND, a, b)) return r;
    if (isC(b) && a->op == AND && isC(a->k[1])) return mkAnd(a->k[0], K(a->k[1]->c & b->c, a->w));
    if (isC(b) && a->op == ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkAnd(a->k[1], b), mkAnd(a->k[2], b));
  }
  if (!isC(b) && a->id > b->id) std::swap(a, b);
  return raw(AND, a->w, 0, a, b);
}
E mkOr(E a, E b) {
  if (isC(a)) std::swap(a, b);
  if (isC(a)) return K(a->c | b->c, a->w);
  if (isC(b, 0)) return a;
  if (isC(b, ~(u128)0)) return b;
  if (a == b) return a;
  if (a->w == 1) {
    if (opp(a, b)) return K(1, 1);
    if (a->op == OR && (a->k[0] == b || a->k[1] == b)) return a;
    if (b->op == OR && (b->k[0] == a || b->k[1] == a)) return b;
  } else {
    if (isC(b)) { if (E r = splitConst(OR, a, b)) return r; }
    if (E r = splitConcat(OR, a, b)) return r;
  }
  if (!isC(b) && a->id > b->id) std::swap(a, b);
  return raw(OR, a->w, 0, a, b);
}
E mkXor(E a, E b) {
  if (isC(a)) std::swap(a, b);
  if (isC(a)) return K(a->c ^ b->c, a->w);
  if (isC(b, 0)) return a;
  if (isC(b, ~(u128)0)) return mkNot(a);
  if (a == b) return K(0, a->w);
  if (a->w > 1) {
    if (E r = splitConcat(XOR, a, b)) return r;
  }
  if (isC(b) && a->op == XOR && isC(a->k[1])) return mkXor(a->k[0], K(a->k[1]->c ^ b->c, a->w));
  if (!isC(b) && a->id > b->id) std::swap(a, b);
  return raw(XOR, a->w, 0, a, b);
}

E mkAdd(E a, E b) {
  if (isC(a)) std::swap(a, b);
  if (isC(a)) return K(a->c + b->c, a->w);
  if (isC(b, 0)) return a;
  if (a->w == 1) return mkXor(a, b);
  if (isC(b)) {
    if (a->op == ADD && isC(a->k[1])) return mkAdd(a->k[0], K(a->k[1]->c + b->c, a->w));
    if (a->op == SUB && isC(a->k[0])) return mkSub(K(a->k[0]->c + b->c, a->w), a->k[1]);
    if (a->op == ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkAdd(a->k[1], b), mkAdd(a->k[2], b));
  } else {
    if (a->op == ADD && isC(a->k[1])) return mkAdd(mkAdd(a->k[0], b), a->k[1]);
    if (b->op == ADD && isC(b->k[1])) return mkAdd(mkAdd(a, b->k[0]), b->k[1]);
    if (a->op == SUB && a->k[1] == b) return a->k[0];
    if (b->op == SUB && b->k[1] == a) return b->k[0];
    if (!(knownZeroMask(a) ^ maskw(a->w)) || !(knownZeroMask(b) ^ maskw(b->w))) {}
    if (((~knownZeroMask(a) & maskw(a->w)) & (~knownZeroMask(b) & maskw(b->w))) == 0) {
      E r = splitConcat(OR, a, b);
      if (r) return r;
    }
    if (a->id > b->id) std::swap(a, b);
  }
  // low constant-zero bits of b: split the concat
  if (isC(b)) {
    unsigned tz = 0;
    while (tz < a->w && !((b->c >> tz) & 1)) tz++;
    if (tz && tz < a->w && a->op == CONCAT) {
      E last = a;
      while (last->op == CONCAT) last = last->k[1];
      unsigned lw = last->w;
      if (lw <= tz) return mkConcat(mkAdd(mkExtract(a, lw, a->w - lw), K(b->c >> lw, a->w - lw)), last);
    }
  }
  return raw(ADD, a->w, 0, a, b);
}
E mkSub(E a, E b) {
  if (a == b) return K(0, a->w);
  if (isC(b)) return mkAdd(a, K(-b->c, a->w));
  if (a->w == 1) return mkXor(a, b);
  if (a->op == ADD) {
    if (a->k[0] == b) return a->k[1];
    if (a->k[1] == b) return a->k[0];
    if (isC(a->k[1])) return mkAdd(mkSub(a->k[0], b), a->k[1]);
  }
  if (b->op == ADD) {
    if (isC(b->k[1])) return mkAdd(mkSub(a, b->k[0]), K(-b->k[1]->c, a->w));
    if (b->k[0] == a) return mkSub(K(0, a->w), b->k[1]);
    if (b->k[1] == a) return mkSub(K(0, a->w), b->k[0]);
  }
  if (a->op == ADD && b->op == ADD) {
    for (int i = 0; i < 2; i++)
      for (int j = 0; j < 2; j++)
        if (a->k[i] == b->k[j]) return mkSub(a->k[1 - i], b->k[1 - j]);
  }
  return raw(SUB, a->w, 0, a, b);
}
E mkMul(E a, E b) {
  if (isC(a)) std::swap(a, b);
  if (isC(a)) return K(a->c * b->c, a->w);
  if (isC(b)) {
    if (b->c == 0) return b;
    if (b->c == 1) return a;
    if ((b->c & (b->c - 1)) == 0) {
      unsigned s = 0;
      while (!((b->c >> s) & 1)) s++;
      return mkShl(a, K(s, a->w));
    }
    if (a->op == MUL && isC(a->k[1])) return mkMul(a->k[0], K(a->k[1]->c * b->c, a->w));
    if (a->op == ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkMul(a->k[1], b), mkMul(a->k[2], b));
  } else if (a->id > b->id) std::swap(a, b);
  return raw(MUL, a->w, 0, a, b);
}
E mkDiv(Op op, E a, E b) {
  unsigned w = a->w;
  if (isC(a) && isC(b) && b->c != 0) {
    switch (op) {
    case UDIV: return K(a->c / b->c, w);
    case UREM: return K(a->c % b->c, w);
    case SDIV: if (sx(b->c, w) == -1) return mkSub(K(0, w), a); return K((u128)(sx(a->c, w) / sx(b->c, w)), w);
    case SREM: if (sx(b->c, w) == -1) return K(0, w); return K((u128)(sx(a->c, w) % sx(b->c, w)), w);
    default: break;
    }
  }
  if (isC(b) && b->c != 0 && (b->c & (b->c - 1)) == 0) {
    unsigned s = 0;
    while (!((b->c >> s) & 1)) s++;
    if (op == UDIV) return mkLshr(a, K(s, w));
    if (op == UREM) return mkAnd(a, K(b->c - 1, w));
  }
  if ((op == UDIV || op == UREM) && isC(b)) {
    // shrink to the active bits
    u128 nz = ~knownZeroMask(a) & maskw(w);
    unsigned aw = 0;
    while (aw < w && (nz >> aw)) aw++;
    unsigned bw = 0;
    while (bw < w && (b->c >> bw)) bw++;
    unsigned m = std::max(aw, bw);
    if (m == 0) m = 1;
    if (nz < b->c) return op == UDIV ? K(0, w) : a;
    if (m < w) return mkZext(raw(op, m, 0, mkExtract(a, 0, m), K(b->c, m)), w);
  }
  return raw(op, w, 0, a, b);
}
E mkShl(E a, E b) {
  unsigned w = a->w;
  if (isC(b)) {
    if (b->c >= w) return K(0, w);
    unsigned s = (unsigned)b->c;
    if (s == 0) return a;
    return mkConcat(mkExtract(a, 0, w - s), K(0, s));
  }
  if (isC(a, 0)) return a;
  return raw(SHL, w, 0, a, b);
}
E mkLshr(E a, E b) {
  unsigned w = a->w;
  if (isC(b)) {
    if (b->c >= w) return K(0, w);
    unsigned s = (unsigned)b->c;
    if (s == 0) return a;
    return mkConcat(K(0, s), mkExtract(a, s, w - s));
  }
  if (isC(a, 0)) return a;
  return raw(LSHR, w, 0, a, b);
}
E mkAshr(E a, E b) {
  unsigned w = a->w;
  if (isC(b)) {
    unsigned s = b->c >= w ? w - 1 : (unsigned)b->c;
    if (s == 0) return a;
    return mkSext(mkExtract(a, s, w - s), w);
  }
  if (isC(a, 0)) return a;
  return raw(ASHR, w, 0, a, b);
}

E mkIte(E c, E a, E b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (c->op == NOT) return mkIte(c->k[0], b, a);
  if (a->w == 1) {
    if (isC(a, 1) && isC(b, 0)) return c;
    if (isC(a, 0) && isC(b, 1)) return mkNot(c);
    if (isC(a, 1)) return mkOr(c, b);
    if (isC(a, 0)) return mkAnd(mkNot(c), b);
    if (isC(b, 0)) return mkAnd(c, a);
    if (isC(b, 1)) return mkOr(mkNot(c), a);
    if (a == c) return mkOr(c, b);
    if (b == c) return mkAnd(c, a);
  }
  if (a->op == ITE && a->k[0] == c) return mkIte(c, a->k[1], b);
  if (b->op == ITE && b->k[0] == c) return mkIte(c, a, b->k[2]);
  if (a->op == ITE && a->k[2] == b) return mkIte(mkAnd(c, a->k[0]), a->k[1], b);
  if (a->op == ITE && a->k[1] == b) return mkIte(mkAnd(c, mkNot(a->k[0])), a->k[2], b);
  if (b->op == ITE && b->k[1] == a) return mkIte(mkOr(c, b->k[0]), a, b->k[2]);
  // x==k ? k : x
  if (c->op == EQ && isC(c->k[1]) && c->k[0] == b && a == c->k[1]) return b;
  // shared zero-extension
  if (a->op == CONCAT && b->op == CONCAT && a->k[0] == b->k[0]) return mkConcat(a->k[0], mkIte(c, a->k[1], b->k[1]));
  if (a->op == CONCAT && isC(a->k[0]) && isC(b) && (b->c >> a->k[1]->w) == a->k[0]->c) return mkConcat(a->k[0], mkIte(c, a->k[1], K(b->c, a->k[1]->w)));
  if (b->op == CONCAT && isC(b->k[0]) && isC(a) && (a->c >> b->k[1]->w) == b->k[0]->c) return mkConcat(b->k[0], mkIte(c, K(a->c, b->k[1]->w), b->k[1]));
  return raw(ITE, a->w, 0, c, a, b);
}

E mkEq(E a, E b) {
  if (a == b) return K(1, 1);
  if (isC(a)) std::swap(a, b);
  if (isC(a)) return K(a->c == b->c, 1);
  if (a->w == 1) {
    if (isC(b)) return b->c ? a : mkNot(a);
    if (opp(a, b)) return K(0, 1);
  }
  if (isC(b)) {
    u128 kz = knownZeroMask(a);
    if (b->c & kz) return K(0, 1);
    switch (a->op) {
    case CONCAT: {
      unsigned lw = a->k[1]->w;
      E h = mkEq(a->k[0], K(b->c >> lw, a->k[0]->w));
      if (isC(h, 0)) return h;
      return mkAnd(h, mkEq(a->k[1], K(b->c, lw)));
    }
    case ITE:
      if (isC(a->k[1]) || isC(a->k[2]) || a->k[1]->op == ITE || a->k[2]->op == ITE) {
        E t = mkEq(a->k[1], b), f = mkEq(a->k[2], b);
        return mkIte(a->k[0], t, f);
      }
      break;
    case ADD:
      if (isC(a->k[1])) return mkEq(a->k[0], K(b->c - a->k[1]->c, a->w));
      break;
    case SUB:
      if (isC(a->k[0])) return mkEq(a->k[1], K(a->k[0]->c - b->c, a->w));
      if (b->c == 0) return mkEq(a->k[0], a->k[1]);
      break;
    case XOR:
      if (isC(a->k[1])) return mkEq(a->k[0], K(b->c ^ a->k[1]->c, a->w));
      if (b->c == 0) return mkEq(a->k[0], a->k[1]);
      break;
    case NOT: return mkEq(a->k[0], K(~b->c, a->w));
    case SEXT: {
      unsigned iw = a->k[0]->w;
      if ((u128)sx(b->c, iw) << (128 - a->w) != b->c << (128 - a->w)) return K(0, 1);
      return mkEq(a->k[0], K(b->c, iw));
    }
    case OR:
      if (b->c == 0) return mkAnd(mkEq(a->k[0], b), mkEq(a->k[1], b));
      break;
    default: break;
    }
  } else {
    if (a->op == CONCAT && b->op == CONCAT) {
      // piecewise on aligned concats
      unsigned lw = a->k[1]->w;
      if (b->k[1]->w == lw) {
        E h = mkEq(a->k[0], b->k[0]);
        if (isC(h, 0)) return h;
        return mkAnd(h, mkEq(a->k[1], b->k[1]));
      }
      if (isC(a->k[0]) || isC(b->k[0])) {
        unsigned m = std::min(a->k[0]->w, b->k[0]->w), r = a->w - m;
        E h = mkEq(mkExtract(a, r, m), mkExtract(b, r, m));
        if (isC(h, 0)) return h;
        return mkAnd(h, mkEq(mkExtract(a, 0, r), mkExtract(b, 0, r)));
      }
    }
    if (a->op == ADD && b->op == ADD && isC(a->k[1]) && a->k[1] == b->k[1]) return mkEq(a->k[0], b->k[0]);
    if (a->op == ADD && (a->k[0] == b || a->k[1] == b)) return mkEq(a->k[0] == b ? a->k[1] : a->k[0], K(0, a->w));
    if (b->op == ADD && (b->k[0] == a || b->k[1] == a)) return mkEq(b->k[0] == a ? b->k[1] : b->k[0], K(0, a->w));
    if (a->id > b->id) std::swap(a, b);
  }
  return raw(EQ, 1, 0, a, b);
}

static u128 umaxOf(E e) { return ~knownZeroMask(e) & maskw(e->w); }

E mkUlt(E a, E b) {
  if (a == b) return K(0, 1);
  if (isC(a) && isC(b)) return K(a->c < b->c, 1);
  if (isC(b, 0)) return K(0, 1);
  if (isC(b, 1)) return mkEq(a, K(0, a->w));
  if (isC(a, 0)) return mkNot(mkEq(b, a));
  if (isC(a, ~(u128)0)) return K(0, 1);
  if (isC(b, ~(u128)0)) return mkNot(mkEq(a, b));
  if (a->w == 1) return mkAnd(mkNot(a), b);
  if (isC(b) && umaxOf(a) < b->c) return K(1, 1);
  if (isC(a) && umaxOf(b) <= a->c) return K(0, 1);
  {
    unsigned m = std::max(1u, (unsigned)0);
    u128 ua = isC(a) ? a->c : umaxOf(a), ub = isC(b) ? b->c : umaxOf(b);
    u128 u = ua | ub;
    unsigned bits = 0;
    while (bits < a->w && (u >> bits)) bits++;
    if (bits < m) bits = m;
    if (bits < a->w) return mkUlt(mkExtract(a, 0, bits), mkExtract(b, 0, bits));
  }
  if (isC(b) && a->op == ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkUlt(a->k[1], b), mkUlt(a->k[2], b));
  if (isC(a) && b->op == ITE && isC(b->k[1]) && isC(b->k[2])) return mkIte(b->k[0], mkUlt(a, b->k[1]), mkUlt(a, b->k[2]));
  return raw(ULT, 1, 0, a, b);
}
E mkUle(E a, E b) {
  if (a == b) return K(1, 1);
  if (isC(a) && isC(b)) return K(a->c <= b->c, 1);
  if (isC(b) && b->c != maskw(b->w)) return mkUlt(a, K(b->c + 1, b->w));
  if (isC(b)) return K(1, 1);
  if (isC(a)) {
    if (a->c == 0) return K(1, 1);
    return mkUlt(K(a->c - 1, a->w), b);
  }
  if (a->w == 1) return mkOr(mkNot(a), b);
  {
    u128 u = umaxOf(a) | umaxOf(b);
    unsigned bits = 0;
    while (bits < a->w && (u >> bits)) bits++;
    if (bits < 1) bits = 1;
    if (bits < a->w) return mkUle(mkExtract(a, 0, bits), mkExtract(b, 0, bits));
  }
  return raw(ULE, 1, 0, a, b);
}
static bool topZero(E e) { return (knownZeroMask(e) >> (e->w - 1)) & 1; }
E mkSlt(E a, E b) {
  if (a == b) return K(0, 1);
  if (isC(a) && isC(b)) return K(sx(a->c, a->w) < sx(b->c, b->w), 1);
  if (topZero(a) && topZero(b)) return mkUlt(a, b);
  if (isC(b, 0)) return mkExtract(a, a->w - 1, 1);
  if (isC(a, ~(u128)0)) return mkNot(mkExtract(b, b->w - 1, 1));
  if (a->op == ITE && isC(b) && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkSlt(a->k[1], b), mkSlt(a->k[2], b));
  return raw(SLT, 1, 0, a, b);
}
E mkSle(E a, E b) {
  if (a == b) return K(1, 1);
  if (isC(a) && isC(b)) return K(sx(a->c, a->w) <= sx(b->c, b->w), 1);
  if (topZero(a) && topZero(b)) return mkUle(a, b);
  if (isC(a, 0)) return mkNot(mkExtract(b, b->w - 1, 1));
  if (isC(b, ~(u128)0)) return mkExtract(a, a->w - 1, 1);
  return raw(SLE, 1, 0, a, b);
}

// cheap known-zero analysis, memoised for the whole run (expressions are immutable)
static std::unordered_map<E, u128> kzMemo;
u128 knownZeroMask(E e) {
  unsigned w = e->w;
  switch (e->op) {
  case CONST: return ~e->c & maskw(w);
  case VAR: return 0;
  case CONCAT: case EXTRACT: case ITE: case AND: case OR: case XOR: case ADD: case MUL: case UREM: case UDIV: case LSHR: case SHL: break;
  default: return 0;
  }
  auto it = kzMemo.find(e);
  if (it != kzMemo.end()) return it->second;
  u128 r = 0;
  switch (e->op) {
  case CONCAT: r = (knownZeroMask(e->k[0]) << e->k[1]->w) | knownZeroMask(e->k[1]); break;
  case EXTRACT: r = (knownZeroMask(e->k[0]) >> (unsigned)e->c) & maskw(w); break;
  case ITE: r = knownZeroMask(e->k[1]) & knownZeroMask(e->k[2]); break;
  case AND: r = knownZeroMask(e->k[0]) | knownZeroMask(e->k[1]); break;
  case OR: case XOR: r = knownZeroMask(e->k[0]) & knownZeroMask(e->k[1]); break;
  case ADD: {
    u128 ma = ~knownZeroMask(e->k[0]) & maskw(w), mb = ~knownZeroMask(e->k[1]) & maskw(w);
    u128 s = ma + mb;
    if (s >= ma && (w >= 128 || s <= maskw(w))) {
      unsigned bits = 0;
      while (bits < w && (s >> bits)) bits++;
      r = maskw(w) & ~maskw(bits);
      if (bits == 0) r = maskw(w);
    }
    unsigned tz = 0;
    while (tz < w && !((ma >> tz) & 1) && !((mb >> tz) & 1)) tz++;
    r |= tz ? maskw(tz) : 0;
    break;
  }
  case MUL: {
    u128 ma = ~knownZeroMask(e->k[0]) & maskw(w), mb = ~knownZeroMask(e->k[1]) & maskw(w);
    unsigned ba = 0, bb = 0, ta = 0, tb = 0;
    while (ba < w && (ma >> ba)) ba++;
    while (bb < w && (mb >> bb)) bb++;
    while (ta < w && !((ma >> ta) & 1)) ta++;
    while (tb < w && !((mb >> tb) & 1)) tb++;
    if (ba + bb < w) r = maskw(w) & ~maskw(ba + bb);
    if (ta + tb) r |= maskw(std::min(w, ta + tb));
    break;
  }
  case UREM:
    if (isC(e->k[1]) && e->k[1]->c) {
      u128 mx = e->k[1]->c - 1;
      unsigned bits = 0;
      while (bits < w && (mx >> bits)) bits++;
      r = bits ? maskw(w) & ~maskw(bits) : maskw(w);
    }
    break;
  case UDIV: case LSHR: {
    u128 ma = ~knownZeroMask(e->k[0]) & maskw(w);
    if (e->op == UDIV) {
      if (isC(e->k[1]) && e->k[1]->c) ma /= e->k[1]->c;
      else ma = maskw(w); // division by zero is all ones in SMT-LIB
    }
    unsigned bits = 0;
    while (bits < w && (ma >> bits)) bits++;
    r = bits ? maskw(w) & ~maskw(bits) : maskw(w);
    break;
  }
  case SHL: {
    u128 ma = ~knownZeroMask(e->k[0]) & maskw(w);
    unsigned tz = 0;
    while (tz < w && !((ma >> tz) & 1)) tz++;
    r = tz ? maskw(tz) : 0;
    break;
  }
  default: break;
  }
  kzMemo[e] = r;
  return r;
}

u128 evalE(E e, const std::vector<uint8_t> &m) {
  if (e->op == CONST) return e->c;
  if (e->op == VAR) return (u64)e->c < m.size() ? m[(u64)e->c] : 0;
  if (e->ep == X.epoch) return e->ev;
  u128 r = 0;
  unsigned w = e->w;
#define A evalE(e->k[0], m)
#define B evalE(e->k[1], m)
  switch (e->op) {
  case ADD: r = A + B; break;
  case SUB: r = A - B; break;
  case MUL: r = A * B; break;
  case UDIV: { u128 b = B; r = b ? A / b : maskw(w); break; }
  case UREM: { u128 b = B, a = A; r = b ? a % b : a; break; }
  case SDIV: { i128 b = sx(B, w), a = sx(A, w); r = b == 0 ? (a < 0 ? 1 : maskw(w)) : b == -1 ? (u128)0 - (u128)a : (u128)(a / b); break; }
  case SREM: { i128 b = sx(B, w), a = sx(A, w); r = b == 0 ? (u128)a : b == -1 ? 0 : (u128)(a % b); break; }
  case AND: r = A & B; break;
  case OR: r = A | B; break;
  case XOR: r = A ^ B; break;
  case NOT: r = ~A; break;
  case SHL: { u128 b = B; r = b >= w ? 0 : A << (unsigned)b; break; }
  case LSHR: { u128 b = B; r = b >= w ? 0 : A >> (unsigned)b; break; }
  case ASHR: { u128 b = B; r = (u128)(sx(A, w) >> (b >= w ? w - 1 : (unsigned)b)); break; }
  case EQ: r = A == B; break;
  case ULT: r = A < B; break;
  case ULE: r = A <= B; break;
  case SLT: r = sx(A, e->k[0]->w) < sx(B, e->k[0]->w); break;
  case SLE: r = sx(A, e->k[0]->w) <= sx(B, e->k[0]->w); break;
  case CONCAT: r = (A << e->k[1]->w) | B; break;
  case EXTRACT: r = A >> (unsigned)e->c; break;
  case SEXT: r = (u128)sx(A, e->k[0]->w); break;
  case ITE: r = A ? B : evalE(e->k[2], m); break;
  default: break;
  }
#undef A
#undef B
  r &= maskw(w);
  e->ev = r;
  e->ep = X.epoch;
  return r;
}

void collectVars(E root, std::vector<uint32_t> &out) {
  std::unordered_set<E> seen;
  std::vector<E> st{root};
  while (!st.empty()) {
    E e = st.back();
    st.pop_back();
    if (e->op == CONST || !seen.insert(e).second) continue;
    if (e->op == VAR) { out.push_back((uint32_t)e->c); continue; }
    for (int i = 0; i < 3 && e->k[i]; i++) st.push_back(e->k[i]);
  }
  std::sort(out.begin(), out.end());
}

Z::Z() {
  Z3_config cfg = Z3_mk_config();
  ctx = Z3_mk_context(cfg);
  Z3_del_config(cfg);
}
static Z3_ast numeral(Z3_context c, u128 v, unsigned w) {
  Z3_sort s = Z3_mk_bv_sort(c, w);
  if (w <= 64) return Z3_mk_unsigned_int64(c, (u64)v, s);
  char buf[64];
  int n = 0;
  std::string str;
  if (v == 0) str = "0";
  while (v) { str.insert(str.begin(), '0' + (int)(v % 10)); v /= 10; }
  (void)buf; (void)n;
  return Z3_mk_numeral(c, str.c_str(), s);
}
Z3_ast Z::b(E e) {
  if (e->zb) return e->zb;
  Z3_ast r;
  Z3_ast t[2];
  switch (e->op) {
  case CONST: r = e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
  case EQ:
    if (e->k[0]->w == 1) r = Z3_mk_eq(ctx, b(e->k[0]), b(e->k[1]));
    else r = Z3_mk_eq(ctx, v(e->k[0]), v(e->k[1]));
    break;
  case ULT: r = Z3_mk_bvult(ctx, v(e->k[0]), v(e->k[1])); break;
  case ULE: r = Z3_mk_bvule(ctx, v(e->k[0]), v(e->k[1])); break;
  case SLT: r = Z3_mk_bvslt(ctx, v(e->k[0]), v(e->k[1])); break;
  case SLE: r = Z3_mk_bvsle(ctx, v(e->k[0]), v(e->k[1])); break;
  case NOT: r = Z3_mk_not(ctx, b(e->k[0])); break;
  case AND: t[0] = b(e->k[0]); t[1] = b(e->k[1]); r = Z3_mk_and(ctx, 2, t); break;
  case OR: t[0] = b(e->k[0]); t[1] = b(e->k[1]); r = Z3_mk_or(ctx, 2, t); break;
  case XOR: r = Z3_mk_xor(ctx, b(e->k[0]), b(e->k[1])); break;
  case ITE: r = Z3_mk_ite(ctx, b(e->k[0]), b(e->k[1]), b(e->k[2])); break;
  default: r = Z3_mk_eq(ctx, v(e), numeral(ctx, 1, 1)); break;
  }
  Z3_inc_ref(ctx, r);
  e->zb = r;
  return r;
}
Z3_ast Z::v(E e) {
  if (e->zv) return e->zv;
  Z3_ast r;
  if (e->w == 1) {
    switch (e->op) {
    case EQ: case ULT: case ULE: case SLT: case SLE: case NOT: case AND: case OR: case XOR: case ITE:
      r = Z3_mk_ite(ctx, b(e), numeral(ctx, 1, 1), numeral(ctx, 0, 1));
      Z3_inc_ref(ctx, r);
      e->zv = r;
      return r;
    default: break;
    }
  }
#define A v(e->k[0])
#define B v(e->k[1])
  switch (e->op) {
  case CONST: r = numeral(ctx, e->c, e->w); break;
  case VAR: {
    char n[32];
    snprintf(n, sizeof n, "b%u", (unsigned)e->c);
    r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n), Z3_mk_bv_sort(ctx, 8));
    break;
  }
  case ADD: r = Z3_mk_bvadd(ctx, A, B); break;
  case SUB: r = Z3_mk_bvsub(ctx, A, B); break;
  case MUL: r = Z3_mk_bvmul(ctx, A, B); break;
  case UDIV: r = Z3_mk_bvudiv(ctx, A, B); break;
  case UREM: r = Z3_mk_bvurem(ctx, A, B); break;
  case SDIV: r = Z3_mk_bvsdiv(ctx, A, B); break;
  case SREM: r = Z3_mk_bvsrem(ctx, A, B); break;
  case AND: r = Z3_mk_bvand(ctx, A, B); break;
  case OR: r = Z3_mk_bvor(ctx, A, B); break;
  case XOR: r = Z3_mk_bvxor(ctx, A, B); break;
  case NOT: r = Z3_mk_bvnot(ctx, A); break;
  case SHL: r = Z3_mk_bvshl(ctx, A, B); break;
  case LSHR: r = Z3_mk_bvlshr(ctx, A, B); break;
  case ASHR: r = Z3_mk_bvashr(ctx, A, B); break;
  case CONCAT: r = Z3_mk_concat(ctx, A, B); break;
  case EXTRACT: r = Z3_mk_extract(ctx, (unsigned)e->c + e->w - 1, (unsigned)e->c, A); break;
  case SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->k[0]->w, A); break;
  case ITE: r = Z3_mk_ite(ctx, b(e->k[0]), v(e->k[1]), v(e->k[2])); break;
  default: fprintf(stderr, "z3 translate?\n"); abort();
  }
#undef A
#undef B
  Z3_inc_ref(ctx, r);
  e->zv = r;
  return r;
}

std::string show(E e, int d) {
  static const char *n[] = {"const", "var", "add", "sub", "mul", "udiv", "urem", "sdiv", "srem", "and", "or", "xor", "not", "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "concat", "extract", "sext", "ite"};
  char b[64];
  if (e->op == CONST) { snprintf(b, sizeof b, "0x%llx:%u", (unsigned long long)e->c, e->w); return b; }
  if (e->op == VAR) { snprintf(b, sizeof b, "b%u", (unsigned)e->c); return b; }
  if (d == 0) return "...";
  std::string s = std::string("(") + n[e->op];
  if (e->op == EXTRACT) { snprintf(b, sizeof b, "[%u+%u]", (unsigned)e->c, e->w); s += b; }
  for (int i = 0; i < 3 && e->k[i]; i++) s += " " + show(e->k[i], d - 1);
  return s + ")";
}
