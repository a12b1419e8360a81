#include "expr.h"
#include <algorithm>
std::vector<Node> NN(1);
std::vector<VarInfo> VARS;
namespace {
struct Key { uint8_t op; uint16_t w; E a, b, c; u128 k; };
std::vector<E> table(1 << 16, 0);
size_t used = 0;
inline uint64_t hsh(uint8_t op, unsigned w, E a, E b, E c, u128 k) {
  uint64_t h = op * 0x9E3779B97F4A7C15ull ^ (uint64_t)w << 40;
  h = (h ^ a) * 0xff51afd7ed558ccdull; h ^= h >> 29;
  h = (h ^ b) * 0xc4ceb9fe1a85ec53ull; h ^= h >> 31;
  h = (h ^ c) * 0x9E3779B97F4A7C15ull; h ^= h >> 30;
  h = (h ^ (uint64_t)k) * 0xff51afd7ed558ccdull; h ^= h >> 32;
  h = (h ^ (uint64_t)(k >> 64)) * 0xc4ceb9fe1a85ec53ull; h ^= h >> 29;
  return h;
}
}
E mk(uint8_t op, unsigned w, E a, E b, E c, u128 k) {
  size_t m = table.size() - 1, i = hsh(op, w, a, b, c, k) & m;
  while (table[i]) {
    const Node &n = NN[table[i]];
    if (n.op == op && n.w == w && n.a == a && n.b == b && n.c == c && n.k == k) return table[i];
    i = (i + 1) & m;
  }
  E id = (E)NN.size();
  NN.push_back(Node{op, (uint16_t)w, a, b, c, k});
  table[i] = id;
  if (++used * 2 > table.size()) {
    std::vector<E> t2(table.size() * 2, 0);
    m = t2.size() - 1;
    for (E e : table) if (e) {
      const Node &n = NN[e];
      size_t j = hsh(n.op, n.w, n.a, n.b, n.c, n.k) & m;
      while (t2[j]) j = (j + 1) & m;
      t2[j] = e;
    }
    table.swap(t2);
  }
  return id;
}
E mkConst(u128 v, unsigned w) { return mk(O_CONST, w, 0, 0, 0, v & maskw(w)); }
E mkVar(unsigned w, const std::string &name) {
  assert(w >= 1 && w <= 64);
  E e = mk(O_VAR, w, 0, 0, 0, VARS.size());
  VARS.push_back({name, w, e});
  return e;
}
static u128 udivz(u128 a, u128 b, unsigned w) { return b ? a / b : maskw(w); }
u128 foldOp(uint8_t op, unsigned w, unsigned wa, u128 a, u128 b, u128 c, u128 k, unsigned wb) {
  u128 M = maskw(w);
  switch (op) {
  case O_ADD: return (a + b) & M;
  case O_SUB: return (a - b) & M;
  case O_MUL: return (a * b) & M;
  case O_UDIV: return udivz(a, b, w) & M;
  case O_UREM: return (b ? a % b : a) & M;
  case O_SDIV: { i128 x = sx(a, w), y = sx(b, w); if (!y) return (x < 0 ? 1 : M) & M; if (y == -1) return (u128)(-(u128)x) & M; return (u128)(x / y) & M; }
  case O_SREM: { i128 x = sx(a, w), y = sx(b, w); if (!y) return a & M; if (y == -1) return 0; return (u128)(x % y) & M; }
  case O_AND: return a & b;
  case O_OR: return a | b;
  case O_XOR: return a ^ b;
  case O_SHL: return b >= w ? 0 : (a << (unsigned)b) & M;
  case O_LSHR: return b >= w ? 0 : (a >> (unsigned)b) & M;
  case O_ASHR: { i128 x = sx(a, w); return (u128)(x >> (unsigned)(b >= w ? w - 1 : b)) & M; }
  case O_CONCAT: return ((a << wb) | b) & M;
  case O_EXTRACT: return (a >> (unsigned)k) & M;
  case O_SEXT: return (u128)sx(a, wa) & M;
  case O_ITE: return a ? b : c;
  case O_EQ: return a == b;
  case O_ULT: return a < b;
  case O_ULE: return a <= b;
  case O_SLT: return sx(a, wa) < sx(b, wa);
  case O_SLE: return sx(a, wa) <= sx(b, wa);
  case O_FADD: return wa == 64 ? (u128)dbits(asd(a) + asd(b)) : (u128)fbits(asf(a) + asf(b));
  case O_FSUB: return wa == 64 ? (u128)dbits(asd(a) - asd(b)) : (u128)fbits(asf(a) - asf(b));
  case O_FMUL: return wa == 64 ? (u128)dbits(asd(a) * asd(b)) : (u128)fbits(asf(a) * asf(b));
  case O_FDIV: return wa == 64 ? (u128)dbits(asd(a) / asd(b)) : (u128)fbits(asf(a) / asf(b));
  case O_FSQRT: return wa == 64 ? (u128)dbits(sqrt(asd(a))) : (u128)fbits(sqrtf(asf(a)));
  case O_FRND: {
    double x = wa == 64 ? asd(a) : (double)asf(a), r;
    switch ((int)k) { case 0: r = nearbyint(x); break; case 1: r = round(x); break; case 2: r = ceil(x); break; case 3: r = floor(x); break; default: r = trunc(x); }
    return wa == 64 ? (u128)dbits(r) : (u128)fbits((float)r); }
  case O_FOEQ: return wa == 64 ? asd(a) == asd(b) : asf(a) == asf(b);
  case O_FOLT: return wa == 64 ? asd(a) < asd(b) : asf(a) < asf(b);
  case O_FOLE: return wa == 64 ? asd(a) <= asd(b) : asf(a) <= asf(b);
  case O_FUNO: return wa == 64 ? (std::isnan(asd(a)) || std::isnan(asd(b))) : (std::isnan(asf(a)) || std::isnan(asf(b)));
  case O_F2SI: { double x = wa == 64 ? asd(a) : (double)asf(a); if (!(x > -9.3e18 && x < 9.3e18)) return (u128)1 << (w - 1); return (u128)(i128)x & M; }
  case O_F2UI: { double x = wa == 64 ? asd(a) : (double)asf(a); if (!(x > -1 && x < 1.9e19)) return (u128)1 << (w - 1); return (u128)x & M; }
  case O_SI2F: return w == 64 ? (u128)dbits((double)sx(a, wa)) : (u128)fbits((float)sx(a, wa));
  case O_UI2F: return w == 64 ? (u128)dbits((double)a) : (u128)fbits((float)a);
  case O_FEXT: return dbits((double)asf(a));
  case O_FTRUNC: return fbits((float)asd(a));
  }
  assert(0 && "foldOp");
  return 0;
}
static bool commut(uint8_t op) { return op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR; }
E mkExtract(E a, unsigned lo, unsigned w) {
  assert(lo + w <= W(a));
  if (w == W(a)) return a;
  Node n = NN[a];
  switch (n.op) {
  case O_CONST: return mkConst(n.k >> lo, w);
  case O_EXTRACT: return mkExtract(n.a, lo + (unsigned)n.k, w);
  case O_CONCAT: {
    unsigned wl = W(n.b);
    if (lo + w <= wl) return mkExtract(n.b, lo, w);
    if (lo >= wl) return mkExtract(n.a, lo - wl, w);
    return mkConcat(mkExtract(n.a, 0, lo + w - wl), mkExtract(n.b, lo, wl - lo));
  }
  case O_SEXT: {
    unsigned wi = W(n.a);
    if (lo + w <= wi) return mkExtract(n.a, lo, w);
    if (lo < wi) return mkSExt(mkExtract(n.a, lo, wi - lo), w);
    return mkSExt(mkExtract(n.a, wi - 1, 1), w);
  }
  case O_ITE:
    if (isC(n.b) || isC(n.c)) return mkIte(n.a, mkExtract(n.b, lo, w), mkExtract(n.c, lo, w));
    break;
  case O_AND: case O_OR: case O_XOR:
    return mkBin(n.op, mkExtract(n.a, lo, w), mkExtract(n.b, lo, w));
  case O_ADD: case O_SUB: case O_MUL:
    if (lo == 0 && W(a) < 64) return mkBin(n.op, mkExtract(n.a, 0, w), mkExtract(n.b, 0, w)); // bytes of a stored word stay together
    break;
  }
  return mk(O_EXTRACT, w, a, 0, 0, lo);
}
E mkConcat(E hi, E lo) {
  unsigned w = W(hi) + W(lo);
  assert(w <= 128);
  Node h = NN[hi], l = NN[lo];
  if (h.op == O_CONST && l.op == O_CONST) return mkConst((h.k << l.w) | l.k, w);
  if (h.op == O_EXTRACT && l.op == O_EXTRACT && h.a == l.a && h.k == l.k + l.w) return mkExtract(h.a, (unsigned)l.k, w);
  // extract as top of x then nothing: whole value
  if (l.op == O_CONCAT) { // right-assoc normal form: (hi . (lh . ll)) ; try merging hi with lh
    Node lh = NN[l.a];
    if (h.op == O_CONST && lh.op == O_CONST) return mkConcat(mkConst((h.k << lh.w) | lh.k, h.w + lh.w), l.b);
    if (h.op == O_EXTRACT && lh.op == O_EXTRACT && h.a == lh.a && h.k == lh.k + lh.w)
      return mkConcat(mkExtract(h.a, (unsigned)lh.k, h.w + lh.w), l.b);
  }
  if (h.op == O_CONCAT) return mkConcat(h.a, mkConcat(h.b, lo));
  // concat of ites with the same condition
  if (h.op == O_ITE && l.op == O_ITE && h.a == l.a) return mkIte(h.a, mkConcat(h.b, l.b), mkConcat(h.c, l.c));
  if (h.op == O_CONST && l.op == O_ITE && isC(l.b) && isC(l.c)) return mkIte(l.a, mkConcat(hi, l.b), mkConcat(hi, l.c));
  return mk(O_CONCAT, w, hi, lo);
}
E mkZExt(E a, unsigned w) {
  if (w == W(a)) return a;
  return mkConcat(mkConst(0, w - W(a)), a);
}
E mkSExt(E a, unsigned w) {
  if (w == W(a)) return a;
  Node n = NN[a];
  if (n.op == O_CONST) return mkConst((u128)sx(n.k, n.w), w);
  if (n.op == O_SEXT) return mkSExt(n.a, w);
  if (n.op == O_CONCAT && isC(n.a)) { // sign known
    u128 top = NN[n.a].k >> (W(n.a) - 1) & 1;
    return mkConcat(mkConst(top ? ~(u128)0 : 0, w - n.w), a);
  }
  if (n.op == O_ITE && (isC(n.b) && isC(n.c))) return mkIte(n.a, mkSExt(n.b, w), mkSExt(n.c, w));
  return mk(O_SEXT, w, a);
}
E mkNot(E a) {
  unsigned w = W(a);
  Node n = NN[a];
  if (n.op == O_CONST) return mkConst(~n.k, w);
  if (n.op == O_XOR && isC(n.b) && cval(n.b) == maskw(w)) return n.a;
  if (w == 1) {
    if (n.op == O_ULT) return mkCmp(O_ULE, n.b, n.a);
    if (n.op == O_ULE) return mkCmp(O_ULT, n.b, n.a);
    if (n.op == O_SLT) return mkCmp(O_SLE, n.b, n.a);
    if (n.op == O_SLE) return mkCmp(O_SLT, n.b, n.a);
  }
  return mkBin(O_XOR, a, mkConst(~(u128)0, w));
}
E mkIte(E c, E a, E b) {
  if (a == b) return a;
  Node n = NN[c];
  if (n.op == O_CONST) return n.k ? a : b;
  if (n.op == O_XOR && isC(n.b)) return mkIte(n.a, b, a); // not
  if (W(a) == 1) {
    if (isC(a) && isC(b)) return cval(a) ? c : mkNot(c);
    if (isC(a)) return cval(a) ? mkBin(O_OR, c, b) : mkBin(O_AND, mkNot(c), b);
    if (isC(b)) return cval(b) ? mkBin(O_OR, mkNot(c), a) : mkBin(O_AND, c, a);
    if (a == c) return mkBin(O_OR, c, b);
    if (b == c) return mkBin(O_AND, c, a);
  }
  if (NN[a].op == O_ITE && NN[a].a == c) a = NN[a].b;
  if (NN[b].op == O_ITE && NN[b].a == c) b = NN[b].c;
  if (a == b) return a;
  // ite(c, ite(d,x,y), y) -> ite(c&d, x, y)
  if (NN[a].op == O_ITE && NN[a].c == b) return mkIte(mkBin(O_AND, c, NN[a].a), NN[a].b, b);
  if (NN[b].op == O_ITE && NN[b].b == a) return mkIte(mkBin(O_OR, c, NN[b].a), a, NN[b].c);
  return mk(O_ITE, W(a), c, a, b);
}
// and with constant mask: split into constant-0 runs and extracted runs
static E andMask(E a, u128 m, unsigned w) {
  E r = 0;
  unsigned i = 0;
  while (i < w) {
    unsigned bit = (m >> i) & 1, j = i;
    while (j < w && ((m >> j) & 1) == bit) j++;
    E p = bit ? mkExtract(a, i, j - i) : mkConst(0, j - i);
    r = r ? mkConcat(p, r) : p;
    i = j;
  }
  return r;
}
static unsigned runs(u128 m, unsigned w) {
  unsigned r = 1;
  for (unsigned i = 1; i < w; i++) r += ((m >> i) & 1) != ((m >> (i - 1)) & 1);
  return r;
}
static void segs(E a, std::vector<unsigned> &cuts, unsigned base) {
  Node n = NN[a];
  if (n.op == O_CONCAT) {
    segs(n.b, cuts, base);
    cuts.push_back(base + W(n.b));
    segs(n.a, cuts, base + W(n.b));
  } else if (n.op == O_CONST) { // split constant into runs
    for (unsigned i = 1; i < n.w; i++)
      if (((n.k >> i) & 1) != ((n.k >> (i - 1)) & 1)) cuts.push_back(base + i);
  }
}
static E bitop1(uint8_t op, E a, E b); // no segment splitting
static E bitopSeg(uint8_t op, E a, E b) {
  unsigned w = W(a);
  std::vector<unsigned> cuts{0, w};
  segs(a, cuts, 0); segs(b, cuts, 0);
  std::sort(cuts.begin(), cuts.end());
  cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
  if (cuts.size() > 24) return 0;
  E r = 0;
  for (size_t i = 0; i + 1 < cuts.size(); i++) {
    unsigned lo = cuts[i], ww = cuts[i + 1] - lo;
    E p = bitop1(op, mkExtract(a, lo, ww), mkExtract(b, lo, ww));
    r = r ? mkConcat(p, r) : p;
  }
  return r;
}
static E bitop1(uint8_t op, E a, E b) {
  unsigned w = W(a);
  if (isC(a)) std::swap(a, b);
  if (isC(a) && isC(b)) return mkConst(foldOp(op, w, w, cval(a), cval(b), 0, 0, w), w);
  if (isC(b)) {
    u128 k = cval(b);
    if (op == O_AND) { if (k == 0) return b; if (k == maskw(w)) return a; }
    if (op == O_OR) { if (k == 0) return a; if (k == maskw(w)) return b; }
    if (op == O_XOR && k == 0) return a;
    if (op == O_XOR && NN[a].op == O_XOR && isC(NN[a].b)) return bitop1(O_XOR, NN[a].a, mkConst(cval(NN[a].b) ^ k, w));
    if (op == O_XOR && w == 1 && k == 1) {
      Node n = NN[a];
      if (n.op == O_ULT) return mkCmp(O_ULE, n.b, n.a);
      if (n.op == O_ULE) return mkCmp(O_ULT, n.b, n.a);
      if (n.op == O_SLT) return mkCmp(O_SLE, n.b, n.a);
      if (n.op == O_SLE) return mkCmp(O_SLT, n.b, n.a);
    }
    if (NN[a].op == O_ITE && isC(NN[a].b) && isC(NN[a].c))
      return mkIte(NN[a].a, bitop1(op, NN[a].b, b), bitop1(op, NN[a].c, b));
    return mk(op, w, a, b);
  }
  if (a == b) return op == O_XOR ? mkConst(0, w) : a;
  if (op == O_AND || op == O_OR) {
    if (w == 1 && (a == mkNot(b))) return mkConst(op == O_OR, 1);
    // absorption
    Node na = NN[a], nb = NN[b];
    if (na.op == op && (na.a == b || na.b == b)) return a;
    if (nb.op == op && (nb.a == a || nb.b == a)) return b;
    uint8_t dual = op == O_AND ? O_OR : O_AND;
    if (na.op == dual && (na.a == b || na.b == b)) return b;
    if (nb.op == dual && (nb.a == a || nb.b == a)) return a;
  }
  if (a > b) std::swap(a, b);
  return mk(op, w, a, b);
}
E mkBin(uint8_t op, E a, E b) {
  unsigned w = W(a);
  if (isC(a) && isC(b)) return mkConst(foldOp(op, w, w, cval(a), cval(b), 0, 0, w), w);
  if (op == O_AND || op == O_OR || op == O_XOR) {
    if (isC(a)) std::swap(a, b);
    if (isC(b)) {
      u128 k = cval(b);
      if (op == O_AND) { if (k == 0) return b; if (k == maskw(w)) return a; }
      if (op == O_OR) { if (k == 0) return a; if (k == maskw(w)) return b; }
      if (op == O_XOR && k == 0) return a;
      if (w > 1) {
        if (op == O_AND && runs(k, w) <= 12) return andMask(a, k, w);
        if ((op == O_OR && runs(k, w) <= 12) || (NN[a].op == O_CONCAT)) { E r = bitopSeg(op, a, b); if (r) return r; }
      }
    } else if (w > 1 && (NN[a].op == O_CONCAT || NN[b].op == O_CONCAT)) {
      E r = bitopSeg(op, a, b);
      if (r) return r;
    }
    return bitop1(op, a, b);
  }
  if (commut(op) && isC(a)) std::swap(a, b);
  if (op == O_MUL && !isC(b) && a > b) std::swap(a, b);
  Node na = NN[a], nb = NN[b];
  if (nb.op == O_CONST) {
    u128 k = nb.k;
    switch (op) {
    case O_ADD:
      if (k == 0) return a;
      if (na.op == O_ADD && isC(na.b)) return mkBin(O_ADD, na.a, mkConst(cval(na.b) + k, w));
      if (na.op == O_SUB && isC(na.a)) return mkBin(O_SUB, mkConst(cval(na.a) + k, w), na.b);
      if (na.op == O_ITE && isC(na.b) && isC(na.c)) return mkIte(na.a, mkBin(op, na.b, b), mkBin(op, na.c, b));
      { // disjoint low zero bits: concat(x, 0..) + k with k < 2^n
        unsigned tz = knownTrailingZeros(a);
        if (tz && tz < w && (k >> tz) == 0) return mkConcat(mkExtract(a, tz, w - tz), mkConst(k, tz));
      }
      break;
    case O_SUB: if (k == 0) return a; return mkBin(O_ADD, a, mkConst(-k, w));
    case O_MUL:
      if (k == 0) return b;
      if (k == 1) return a;
      if ((k & (k - 1)) == 0) { unsigned s = 0; while (((k >> s) & 1) == 0) s++; return mkBin(O_SHL, a, mkConst(s, w)); }
      break;
    case O_UDIV:
      if (k == 1) return a;
      if (k && (k & (k - 1)) == 0) { unsigned s = 0; while (((k >> s) & 1) == 0) s++; return mkBin(O_LSHR, a, mkConst(s, w)); }
      if (k && urangeMax(a) < k) return mkConst(0, w);
      if (k) { u128 m = std::max(urangeMax(a), (u128)k); unsigned b2 = 0; while (b2 < w && (m >> b2)) b2++; if (b2 < w) return mkZExt(mkBin(O_UDIV, mkExtract(a, 0, b2), mkConst(k, b2)), w); } // divide at the width the values need
      break;
    case O_UREM:
      if (k && (k & (k - 1)) == 0) return mkBin(O_AND, a, mkConst(k - 1, w));
      if (k && urangeMax(a) < k) return a;
      if (k) { u128 m = std::max(urangeMax(a), (u128)k); unsigned b2 = 0; while (b2 < w && (m >> b2)) b2++; if (b2 < w) return mkZExt(mkBin(O_UREM, mkExtract(a, 0, b2), mkConst(k, b2)), w); } // divide at the width the values need
      break;
    case O_SDIV: case O_SREM:
      // non-negative dividend and positive constant divisor: unsigned
      if (k && !((k >> (w - 1)) & 1) && urangeMax(a) < ((u128)1 << (w - 1))) return mkBin(op == O_SDIV ? O_UDIV : O_UREM, a, b);
      break;
    case O_SHL:
      if (k == 0) return a;
      if (k >= w) return mkConst(0, w);
      return mkConcat(mkExtract(a, 0, w - (unsigned)k), mkConst(0, (unsigned)k));
    case O_LSHR:
      if (k == 0) return a;
      if (k >= w) return mkConst(0, w);
      return mkConcat(mkConst(0, (unsigned)k), mkExtract(a, (unsigned)k, w - (unsigned)k));
    case O_ASHR:
      if (k == 0) return a;
      if (k >= w) k = w - 1;
      return mkSExt(mkExtract(a, (unsigned)k, w - (unsigned)k), w);
    }
    if (op == O_MUL && na.op == O_ITE && isC(na.b) && isC(na.c)) return mkIte(na.a, mkBin(op, na.b, b), mkBin(op, na.c, b));
    if ((op == O_UDIV || op == O_UREM || op == O_SDIV || op == O_SREM) && na.op == O_ITE && isC(na.b) && isC(na.c) && k)
      return mkIte(na.a, mkBin(op, na.b, b), mkBin(op, na.c, b));
  }
  if (op == O_SUB && a == b) return mkConst(0, w);
  if (op == O_SUB && na.op == O_ADD && na.b == b) return na.a;
  if (op == O_SUB && na.op == O_ADD && na.a == b) return na.b;
  if (op == O_ADD && nb.op == O_SUB && nb.b == a) return nb.a;
  if (op == O_ADD && na.op == O_SUB && na.b == b) return na.a;
  // (x + c1) - (x + c2) / (x+c) - x
  if (op == O_SUB && na.op == O_ADD && isC(na.b) && nb.op == O_ADD && isC(nb.b) && na.a == nb.a) return mkConst(cval(na.b) - cval(nb.b), w);
  if (op == O_SUB && nb.op == O_ADD && isC(nb.b)) return mkBin(O_ADD, mkBin(O_SUB, a, nb.a), mkConst(-cval(nb.b), w));
  if (op == O_ADD && na.op == O_ADD && isC(na.b)) return mkBin(O_ADD, mkBin(O_ADD, na.a, b), na.b);
  if (op == O_ADD && nb.op == O_ADD && isC(nb.b)) return mkBin(O_ADD, mkBin(O_ADD, a, nb.a), nb.b);
  if (isC(a) && cval(a) == 0 && (op == O_SHL || op == O_LSHR || op == O_ASHR)) return a;
  if (op == O_ADD && w > 1 && (na.op == O_CONCAT || nb.op == O_CONCAT)) {
    // addition of values with disjoint known-zero bits = or
    std::vector<unsigned> cuts{0, w};
    segs(a, cuts, 0); segs(b, cuts, 0);
    std::sort(cuts.begin(), cuts.end());
    cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
    if (cuts.size() <= 24) {
      bool dis = true;
      for (size_t i = 0; dis && i + 1 < cuts.size(); i++) {
        E x = mkExtract(a, cuts[i], cuts[i + 1] - cuts[i]), y = mkExtract(b, cuts[i], cuts[i + 1] - cuts[i]);
        dis = (isC(x) && cval(x) == 0) || (isC(y) && cval(y) == 0);
      }
      if (dis) return mkBin(O_OR, a, b);
    }
  }
  if (commut(op) && !isC(b) && a > b) std::swap(a, b);
  return mk(op, w, a, b);
}
static E eqBool(E a, E b) { return mkCmp(O_EQ, a, b); }
E mkCmp(uint8_t op, E a, E b) {
  unsigned w = W(a);
  assert(w == W(b));
  if (isC(a) && isC(b)) return mkConst(foldOp(op, 1, w, cval(a), cval(b), 0, 0, w), 1);
  if (a == b) return mkConst(op == O_EQ || op == O_ULE || op == O_SLE, 1);
  if (op == O_EQ) {
    if (isC(a)) std::swap(a, b);
    Node n = NN[a];
    if (isC(b)) {
      u128 k = cval(b);
      if (w == 1) return k ? a : mkNot(a);
      switch (n.op) {
      case O_ITE:
        if (isC(n.b) && isC(n.c)) return mkIte(n.a, eqBool(n.b, b), eqBool(n.c, b));
        if (isC(n.b) || isC(n.c)) return mkIte(n.a, eqBool(n.b, b), eqBool(n.c, b));
        if (NN[n.b].op == O_ITE || NN[n.c].op == O_ITE) { // push through small ite trees of constants
          return mkIte(n.a, eqBool(n.b, b), eqBool(n.c, b));
        }
        break;
      case O_CONCAT: {
        unsigned wl = W(n.b);
        return mkBin(O_AND, eqBool(n.a, mkConst(k >> wl, w - wl)), eqBool(n.b, mkConst(k, wl)));
      }
      case O_ADD: if (isC(n.b)) return eqBool(n.a, mkConst(k - cval(n.b), w)); break;
      case O_SUB: if (isC(n.a)) return eqBool(n.b, mkConst(cval(n.a) - k, w)); if (k == 0) return eqBool(n.a, n.b); break;
      case O_XOR: if (isC(n.b)) return eqBool(n.a, mkConst(k ^ cval(n.b), w)); if (k == 0) return eqBool(n.a, n.b); break;
      case O_SEXT: {
        unsigned wi = W(n.a);
        u128 lo = k & maskw(wi);
        if (((u128)sx(lo, wi) & maskw(w)) != k) return mkConst(0, 1);
        return eqBool(n.a, mkConst(lo, wi));
      }
      }
      if (urangeMax(a) < k) return mkConst(0, 1);
    } else {
      Node m = NN[b];
      if (n.op == O_CONCAT && m.op == O_CONCAT && W(n.b) == W(m.b))
        return mkBin(O_AND, eqBool(n.a, m.a), eqBool(n.b, m.b));
      if (n.op == O_CONCAT || m.op == O_CONCAT) {
        if (n.op != O_CONCAT) std::swap(a, b), std::swap(n, m);
        unsigned wl = W(n.b);
        return mkBin(O_AND, eqBool(n.a, mkExtract(b, wl, w - wl)), eqBool(n.b, mkExtract(b, 0, wl)));
      }
      if (n.op == O_ADD && isC(n.b) && m.op == O_ADD && isC(m.b)) return eqBool(mkBin(O_ADD, n.a, mkConst(cval(n.b) - cval(m.b), w)), m.a);
      if (n.op == O_ITE && m.op == O_ITE && n.a == m.a) return mkIte(n.a, eqBool(n.b, m.b), eqBool(n.c, m.c));
      if (n.op == O_ITE && (n.b == b || n.c == b)) return n.b == b ? mkBin(O_OR, n.a, eqBool(n.c, b)) : mkBin(O_OR, mkNot(n.a), eqBool(n.b, b));
      if (m.op == O_ITE && (m.b == a || m.c == a)) return m.b == a ? mkBin(O_OR, m.a, eqBool(m.c, a)) : mkBin(O_OR, mkNot(m.a), eqBool(m.b, a));
      if (a > b) std::swap(a, b);
    }
    return mk(O_EQ, 1, a, b);
  }
  u128 M = maskw(w);
  if (op == O_ULT) {
    if (isC(b) && cval(b) == 0) return mkConst(0, 1);
    if (isC(b) && cval(b) == 1) return eqBool(a, mkConst(0, w));
    if (isC(a) && cval(a) == M) return mkConst(0, 1);
    if (isC(b) && urangeMax(a) < cval(b)) return mkConst(1, 1);
    if (isC(a) && urangeMax(b) <= cval(a)) return mkConst(0, 1);
    if (isC(a) && cval(a) == 0) return mkNot(eqBool(b, a));
  } else if (op == O_ULE) {
    if (isC(a) && cval(a) == 0) return mkConst(1, 1);
    if (isC(b) && cval(b) == M) return mkConst(1, 1);
    if (isC(b) && cval(b) == 0) return eqBool(a, b);
    if (isC(b) && urangeMax(a) <= cval(b)) return mkConst(1, 1);
    if (isC(a) && urangeMax(b) < cval(a)) return mkConst(0, 1);
  } else {
    // signed: if both known non-negative use unsigned
    u128 h = (u128)1 << (w - 1);
    if (w > 1 && urangeMax(a) < h && urangeMax(b) < h) return mkCmp(op == O_SLT ? O_ULT : O_ULE, a, b);
  }
  Node n = NN[a], m = NN[b];
  if (isC(b) && n.op == O_ITE && isC(n.b) && isC(n.c)) return mkIte(n.a, mkCmp(op, n.b, b), mkCmp(op, n.c, b));
  if (isC(a) && m.op == O_ITE && isC(m.b) && isC(m.c)) return mkIte(m.a, mkCmp(op, a, m.b), mkCmp(op, a, m.c));
  // strip common zero-extension
  if ((op == O_ULT || op == O_ULE)) {
    auto zx = [](const Node &x) { return x.op == O_CONCAT && isC(x.a) && cval(x.a) == 0; };
    if (zx(n) && zx(m) && W(n.b) == W(m.b)) return mkCmp(op, n.b, m.b);
    if (zx(n) && m.op == O_CONST && (m.k >> W(n.b)) == 0) return mkCmp(op, n.b, mkConst(m.k, W(n.b)));
    if (zx(m) && n.op == O_CONST && (n.k >> W(m.b)) == 0) return mkCmp(op, mkConst(n.k, W(m.b)), m.b);
  }
  return mk(op, 1, a, b);
}
E mkF(uint8_t op, unsigned w, E a, E b, u128 k) {
  if (isC(a) && (!b || isC(b))) return mkConst(foldOp(op, w, W(a), cval(a), b ? cval(b) : 0, 0, k, b ? W(b) : 0), w);
  Node n = NN[a];
  if (!b && n.op == O_ITE && isC(n.b) && isC(n.c)) return mkIte(n.a, mkF(op, w, n.b, 0, k), mkF(op, w, n.c, 0, k));
  return mk(op, w, a, b, 0, k);
}
// ---- evaluation under a model
static std::vector<u128> evVal;
static std::vector<uint32_t> evEp;
static uint32_t evEpoch = 0;
static u128 ev(E e, const Model &m) {
  if (evEp[e] == evEpoch) return evVal[e];
  const Node n = NN[e];
  u128 r;
  switch (n.op) {
  case O_CONST: r = n.k; break;
  case O_VAR: r = (size_t)n.k < m.size() ? m[(size_t)n.k] & maskw(n.w) : 0; break;
  case O_ITE: r = ev(n.a, m) ? ev(n.b, m) : ev(n.c, m); break;
  default: {
    u128 a = ev(n.a, m), b = n.b ? ev(n.b, m) : 0;
    r = foldOp(n.op, n.w, W(n.a), a, b, 0, n.k, n.b ? W(n.b) : 0);
  }
  }
  evEp[e] = evEpoch; evVal[e] = r;
  return r;
}
static const Model *lastModel = nullptr;
u128 evalE(E e, const Model &m) {
  if (NN[e].op == O_CONST) return NN[e].k;
  if (evEp.size() < NN.size()) { evEp.resize(NN.size() * 2, 0); evVal.resize(NN.size() * 2); }
  evEpoch++;
  if (!evEpoch) { std::fill(evEp.begin(), evEp.end(), 0); evEpoch = 1; }
  return ev(e, m);
}
// ---- variable sets (hash-consed)
static std::vector<std::vector<uint32_t>> VS(1);
static std::vector<uint32_t> vsOf; // node -> index+1
static std::unordered_map<uint64_t, uint32_t> unionMemo;
static uint32_t vsIndex(E e) {
  if (vsOf.size() < NN.size()) vsOf.resize(NN.size() * 2, 0);
  if (vsOf[e]) return vsOf[e] - 1;
  const Node n = NN[e];
  uint32_t r = 0;
  if (n.op == O_VAR) { r = (uint32_t)VS.size(); VS.push_back({(uint32_t)n.k}); }
  else if (n.op != O_CONST) {
    E ks[3] = {n.a, n.b, n.c};
    for (E k : ks) if (k) {
      uint32_t x = vsIndex(k);
      if (!r || r == x) { if (x) r = x; continue; }
      if (!x) continue;
      uint64_t key = (uint64_t)std::min(r, x) << 32 | std::max(r, x);
      auto it = unionMemo.find(key);
      if (it != unionMemo.end()) { r = it->second; continue; }
      std::vector<uint32_t> u;
      std::set_union(VS[r].begin(), VS[r].end(), VS[x].begin(), VS[x].end(), std::back_inserter(u));
      uint32_t nr;
      if (u.size() == VS[r].size()) nr = r;
      else if (u.size() == VS[x].size()) nr = x;
      else { nr = (uint32_t)VS.size(); VS.push_back(u); }
      unionMemo[key] = nr;
      r = nr;
    }
  }
  if (vsOf.size() < NN.size()) vsOf.resize(NN.size() * 2, 0);
  vsOf[e] = r + 1;
  return r;
}
const std::vector<uint32_t> &varsOf(E e) { return VS[vsIndex(e)]; }
static std::vector<std::pair<bool, u128>> urM;
u128 urangeMax(E e) {
  const Node n = NN[e];
  u128 M = maskw(n.w);
  if (n.op == O_CONST) return n.k;
  if (n.op == O_VAR || n.op == O_EXTRACT) return M;
  if (urM.size() < NN.size()) urM.resize(NN.size() * 2, {false, 0});
  if (urM[e].first) return urM[e].second;
  u128 r = M;
  auto sat = [&](bool ov, u128 v) { return ov || v > M ? M : v; };
  switch (n.op) {
  case O_CONCAT: r = (urangeMax(n.a) << W(n.b)) | maskw(W(n.b)); if (isC(n.a)) r = (cval(n.a) << W(n.b)) | urangeMax(n.b); break;
  case O_ITE: r = std::max(urangeMax(n.b), urangeMax(n.c)); break;
  case O_AND: r = std::min(urangeMax(n.a), urangeMax(n.b)); break;
  case O_ADD: if (n.w < 127) r = sat(false, urangeMax(n.a) + urangeMax(n.b)); break;
  case O_MUL: if (n.w <= 63) r = sat(false, urangeMax(n.a) * urangeMax(n.b)); else if (n.w <= 64) { u128 x = urangeMax(n.a), y = urangeMax(n.b); r = sat(false, x * y); } break;
  case O_LSHR: r = urangeMax(n.a); break;
  case O_UDIV: if (isC(n.b) && cval(n.b)) r = urangeMax(n.a) / cval(n.b); break;
  case O_UREM: if (isC(n.b) && cval(n.b)) r = std::min(urangeMax(n.a), cval(n.b) - 1); break;
  case O_OR: case O_XOR: { u128 x = urangeMax(n.a) | urangeMax(n.b); unsigned b = 0; while (b < n.w && (x >> b)) b++; r = maskw(b); break; }
  default: break;
  }
  if (urM.size() < NN.size()) urM.resize(NN.size() * 2, {false, 0});
  urM[e] = {true, r};
  return r;
}
unsigned knownTrailingZeros(E e) {
  const Node n = NN[e];
  switch (n.op) {
  case O_CONST: { if (!n.k) return n.w; unsigned s = 0; while (!((n.k >> s) & 1)) s++; return s; }
  case O_CONCAT: { unsigned l = knownTrailingZeros(n.b); return l == W(n.b) ? l + knownTrailingZeros(n.a) : l; }
  case O_ADD: case O_SUB: case O_OR: return std::min(knownTrailingZeros(n.a), knownTrailingZeros(n.b));
  case O_AND: return std::max(knownTrailingZeros(n.a), knownTrailingZeros(n.b));
  case O_MUL: return std::min<unsigned>(n.w, knownTrailingZeros(n.a) + knownTrailingZeros(n.b));
  case O_ITE: return std::min(knownTrailingZeros(n.b), knownTrailingZeros(n.c));
  }
  return 0;
}
