// differential self-test of the simplifier: every constructor against foldOp on concrete values, and Z3 against evalE
#include "../expr.h"
#include "../solver.h"
#include <random>
#include <array>
#include <map>
int main(int argc, char **argv) {
  std::mt19937_64 r(argc > 1 ? atoi(argv[1]) : 1);
  const int NM = 12; unsigned Ws[] = {1, 3, 8, 16, 32, 64, 128, 13, 61};
  long bad = 0, tot = 0;
  for (int round = 0; round < 150; round++) {
    struct P { E e; std::array<u128, NM> v; };
    std::map<unsigned, std::vector<P>> pool;
    size_t base = VARS.size();
    std::vector<Model> ms(NM, Model(base + 40, 0));
    auto rv = [&](unsigned w) -> u128 { u128 x = ((u128)r() << 64) | r(); switch (r() % 5) { case 0: x = r() % 4; break; case 1: x = ~(u128)0 - r() % 3; break; case 2: x = (u128)1 << (r() % w); break; case 3: x &= maskw(1 + r() % w); } return x & maskw(w); };
    for (unsigned w : Ws) {
      if (w <= 64) for (int i = 0; i < 2; i++) { P p; p.e = mkVar(w, "v"); size_t id = VARS.size() - 1; for (int k = 0; k < NM; k++) { ms[k].resize(base+60,0); ms[k][id] = (uint64_t)rv(w); p.v[k] = ms[k][id]; } pool[w].push_back(p); }
      for (int i = 0; i < 3; i++) { u128 c = rv(w); P p; p.e = mkConst(c, w); for (auto &x : p.v) x = c; pool[w].push_back(p); }
    }
    for (int step = 0; step < 1200; step++) {
      auto wit = pool.begin(); std::advance(wit, r() % pool.size());
      unsigned w = wit->first; auto pick = [&](unsigned ww) -> P { auto &v = pool[ww]; if (r() % 3 == 0) return v[r() % v.size()]; return v[v.size() - 1 - r() % std::min<size_t>(v.size(), 12)]; };
      P a = pick(w), b = pick(w), o; int k = r() % 9; unsigned nw = w; int desc = 0;
      if (k < 3) { uint8_t ops[] = {O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR, O_AND, O_OR, O_ADD}; uint8_t op = ops[r() % 16]; desc = op;
        if ((op==O_SHL||op==O_LSHR||op==O_ASHR) && r()%2) { u128 c = r() % (w+1); b.e = mkConst(c & maskw(w), w); for (auto&x:b.v) x = c & maskw(w);}
        if ((op==O_SDIV) ) { /* min/-1 allowed */ }
        o.e = mkBin(op, a.e, b.e); for (int i = 0; i < NM; i++) o.v[i] = foldOp(op, w, w, a.v[i], b.v[i], 0, 0, w); }
      else if (k == 3) { uint8_t ops[] = {O_EQ, O_ULT, O_ULE, O_SLT, O_SLE}; uint8_t op = ops[r() % 5]; desc = op; nw = 1; o.e = mkCmp(op, a.e, b.e); for (int i = 0; i < NM; i++) o.v[i] = foldOp(op, 1, w, a.v[i], b.v[i], 0, 0, w); }
      else if (k == 4) { P c = pick(1); desc = O_ITE; o.e = mkIte(c.e, a.e, b.e); for (int i = 0; i < NM; i++) o.v[i] = c.v[i] ? a.v[i] : b.v[i]; }
      else if (k == 5) { nw = 1 + r() % w; unsigned lo = r() % (w - nw + 1); desc = O_EXTRACT; o.e = mkExtract(a.e, lo, nw); for (int i = 0; i < NM; i++) o.v[i] = (a.v[i] >> lo) & maskw(nw); }
      else if (k == 6) { P c = wit->second[r() % wit->second.size()]; auto w2 = pool.begin(); std::advance(w2, r() % pool.size()); c = w2->second[r() % w2->second.size()]; if (w + W(c.e) > 128) continue; nw = w + W(c.e); desc = O_CONCAT; o.e = mkConcat(a.e, c.e); for (int i = 0; i < NM; i++) o.v[i] = ((a.v[i] << W(c.e)) | c.v[i]) & maskw(nw); }
      else if (k == 7) { desc = O_XOR; o.e = mkNot(a.e); for (int i = 0; i < NM; i++) o.v[i] = ~a.v[i] & maskw(w); }
      else { nw = w + r() % (129 - w); if (r() % 2) { o.e = mkZExt(a.e, nw); o.v = a.v; } else { desc = O_SEXT; o.e = mkSExt(a.e, nw); for (int i = 0; i < NM; i++) o.v[i] = (u128)sx(a.v[i], w) & maskw(nw); } }
      if (W(o.e) != nw) { printf("width mismatch op %d\n", desc); bad++; continue; }
      u128 um = urangeMax(o.e); unsigned tz = knownTrailingZeros(o.e);
      for (int i = 0; i < NM; i++) { tot++; u128 g = evalE(o.e, ms[i]); if (g != o.v[i] || g > um || (g & maskw(std::min(tz, nw) ? std::min(tz,nw) : 1) & (tz ? ~(u128)0 : 0))) { bad++; if (bad < 10) printf("MISMATCH op %d w %u nw %u um %d\n", desc, w, nw, g > um); } }
      if (nw <= 128) pool[nw].push_back(o);
    }
    // solver agreement: assert vars equal model and expr != value -> unsat
    if (round < 12) for (int q = 0; q < 12; q++) {
      auto wit = pool.begin(); std::advance(wit, r() % pool.size()); P p = wit->second.back(); if (r()%2) p = wit->second[r() % wit->second.size()];
      int i = r() % NM; std::vector<E> cs; for (uint32_t v : varsOf(p.e)) cs.push_back(mkCmp(O_EQ, VARS[v].e, mkConst(ms[i][v], VARS[v].w)));
      cs.push_back(mkCmp(O_EQ, p.e, mkConst(p.v[i], W(p.e)))); Model out; Res a = solve(cs, out); cs.pop_back(); cs.push_back(mkNot(mkCmp(O_EQ, p.e, mkConst(p.v[i], W(p.e))))); Res b = solve(cs, out);
      if ((a != R_SAT && a != R_UNKNOWN) || (b == R_SAT)) { bad++; printf("SOLVER MISMATCH %d %d w%u\n", a, b, W(p.e)); }
    }
  }
  printf("%ld evaluations, %ld bad, solver q=%lu unk=%lu\n", tot, bad, SST.queries, SST.unknown);
  return bad != 0;
}
