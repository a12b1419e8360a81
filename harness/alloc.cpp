// switch and VC allocators: every request matrix over some rounds, then one matrix held
#include <string>
#include <vector>
#include <algorithm>
#include "booksim.hpp"
#include "module.hpp"
#include "allocator.hpp"
#include "booksim_config.hpp"
#include "sx.h"
#define STR_(x) #x
#define STR(x) std::string(STR_(x))
long ran_next() { return (long)sx_in("ran", 3); }
double ranf_next() { return sx_in("ranf", 4) / 16.0; }
void ran_start(long) {} void ranf_start(long) {}
static const int I = AL_IN, O = AL_OUT; static bool rq[I][O]; static int lab[I][O], pr[I][O], po[I][O];
static int best(int i, unsigned used) { if (i == I) return 0; int b = best(i + 1, used); for (int o = 0; o < O; o++) if (rq[i][o] && !(used >> o & 1)) b = std::max(b, 1 + best(i + 1, used | 1u << o)); return b; }
static int bestall() { return best(0, 0); }
extern "C" void harness() {
  Module *root = new Module(0, "root"); BookSimConfig cfg; cfg.Assign("alloc_iters", AL_ITERS); cfg.Assign("arb_type", STR(AL_ARB));
  Allocator *a = Allocator::NewAllocator(root, "a", STR(AL_TYPE), I, O, AL_CFG ? &cfg : 0); if (!a) { sx_fail("the allocator exists"); return; }
  int wait[I][O] = {};
  for (int t = -AL_FIRST; t < AL_ROUNDS + AL_HOLD; t++) {
    a->Clear(); bool hold = t >= AL_ROUNDS; unsigned m = 0;
    if (!hold || t == AL_ROUNDS) { m = t < 0 ? (1u << (I * O)) - 1 : (unsigned)sx_pick("req", I * O, 0, (1u << (I * O)) - 1); for (int i = 0; i < I; i++) for (int o = 0; o < O; o++) { rq[i][o] = m >> (i * O + o) & 1; lab[i][o] = (int)sx_in("label", 4); pr[i][o] = AL_PRI ? (int)sx_range("pri", 3, 0, AL_PRI) : 0; po[i][o] = AL_PRI > 1 && AL_TWO ? (int)sx_range("opri", 3, 0, AL_PRI) : pr[i][o]; } }
    int n = 0; for (int k = 0; k < I; k++) for (int l = 0; l < O; l++) { int i = AL_REV ? I - 1 - k : k, o = AL_REV ? O - 1 - l : l; if (rq[i][o]) { a->AddRequest(i, o, lab[i][o], pr[i][o], po[i][o]); n++; } }
    for (int i = 0; i < I; i++) for (int o = 0; o < O; o++) sx_check((a->ReadRequest(i, o) >= 0) == rq[i][o] && (!rq[i][o] || a->ReadRequest(i, o) == lab[i][o]), "the requests made are the requests seen");
    a->Allocate();
    int im[I], om[O], g = 0; for (int i = 0; i < I; i++) { im[i] = (int)sx_fork(a->OutputAssigned(i)); g += im[i] >= 0; } for (int o = 0; o < O; o++) om[o] = (int)sx_fork(a->InputAssigned(o));
    for (int i = 0; i < I; i++) { if (im[i] < 0) continue; if (im[i] >= O) { sx_fail("a grant names an output"); return; } sx_check(om[im[i]] == i, "each input gets at most one output and each output at most one input"); sx_check(rq[i][im[i]], "only requests are granted"); sx_check(a->ReadRequest(i, im[i]) == lab[i][im[i]], "the granted request keeps its label"); }
    for (int o = 0; o < O; o++) { if (om[o] < 0) continue; if (om[o] >= I) { sx_fail("a grant names an input"); return; } sx_check(im[om[o]] == o, "each output gets at most one input and each input at most one output"); }
    if (n) sx_check(g > 0, "something is granted when something is requested"); if (g > 1) sx_reach("several grants");
    if (AL_MAXIMAL) for (int i = 0; i < I; i++) for (int o = 0; o < O; o++) sx_check(!rq[i][o] || im[i] >= 0 || om[o] >= 0, "no request between a free input and a free output is left");
    if (AL_MAXIMUM) sx_check(g == bestall(), "as many requests as possible are granted");
    if (AL_PRI) for (int i = 0; i < I; i++) for (int o = 0; o < O; o++) if (rq[i][o] && im[i] != o) {
      bool top = true; for (int k = 0; k < O; k++) if (k != o && rq[i][k]) top &= pr[i][k] < pr[i][o]; for (int k = 0; k < I; k++) if (k != i && rq[k][o]) top &= po[k][o] < po[i][o];
      if (AL_PRIO == 1) sx_check(!top, "a request above all others of its input and of its output is granted");
      if (AL_PRIO == 2) { bool blk = false; if (im[i] >= 0) blk |= pr[i][im[i]] >= pr[i][o]; if (om[o] >= 0) blk |= pr[om[o]][o] >= pr[i][o]; sx_check(blk, "a request only loses to one of at least its priority"); } }
    if (hold && AL_FAIR) for (int i = 0; i < I; i++) for (int o = 0; o < O; o++) { if (!rq[i][o] || im[i] == o) wait[i][o] = 0; else if (++wait[i][o] >= AL_FAIR) sx_fail("a request that is kept up is granted in the end"); }
  }
  sx_reach("end");
}
